#include <functional>
// Runtime of the symbolic executor: expression DAG, shadow memory, path recording, solver, scheduler.
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <csignal>
#include <cerrno>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <cxxabi.h>
#include <dlfcn.h>

typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef __int128 i128;

extern "C" { u32 svrt_args[512]; u32 svrt_ret[64]; void *svrt_callee; void *svrt_byval[64]; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ nodes
enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  NOT, EQ, ULT, SLT, SLE, ITE, ZEXT, SEXT, TRUNC, CONCAT, SITOD, DTOSI,
  DADD, DSUB, DMULC, DLT, DLE, DEQ, DFLOOR, BITS };
static const u8 KD = 200; // kind of doubles; otherwise the integer width
struct Node { Op op; u8 kind; int8_t sc; u32 a, b, c; i64 imm; i64 lo, hi; i64 cv; u64 h = 0; };
static std::vector<Node> N;
struct Key { u64 h; };
static std::unordered_multimap<u64, u32> cons;
static std::unordered_map<u32, i64> knownConst; // nodes fixed by the path so far
static std::unordered_map<u32, bool> knownBool;

static inline i64 smin(unsigned w) { return w >= 64 ? INT64_MIN : -(1LL << (w - 1)); }
static inline i64 smax(unsigned w) { return w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1; }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; if (w == 1) return v & 1; return (i64)(v << (64 - w)) >> (64 - w); }
static inline u64 zx(i64 v, unsigned w) { return w >= 64 ? (u64)v : (u64)v & ((1ULL << w) - 1); }

struct Stats { u64 nodes = 0, conc = 0, concd = 0, stale = 0, mism = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, asserts = 0, forksel = 0, nolia = 0; double solver = 0; } ST;
static bool inconclusive = false; static std::string inconclusiveWhy;
static void mark(const char *w) { inconclusive = true; if (inconclusiveWhy.empty()) inconclusiveWhy = w; }

static u32 intern(const Node &n) {
  u64 h = n.op; auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; };
  // structural, so that it does not depend on the order in which nodes are created
  mix(n.kind); mix((u64)(u8)n.sc); if (n.op == VAR) mix(n.a); else if (n.op != CONST) { mix(N[n.a].h); mix(n.b ? N[n.b].h : 0); mix(n.c ? N[n.c].h : 0); } mix(n.imm);
  auto r = cons.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { const Node &m = N[it->second];
    if (m.op == n.op && m.kind == n.kind && m.sc == n.sc && m.a == n.a && m.b == n.b && m.c == n.c && m.imm == n.imm) return it->second; }
  u32 id = N.size(); N.push_back(n); N[id].h = h; cons.emplace(h, id); ST.nodes++; return id;
}
static u32 mkc(unsigned w, i64 v) { v = sx(zx(v, w), w); Node n{CONST, (u8)w, 0, 0, 0, 0, v, v, v, v}; return intern(n); }
static u32 mkdc(i64 v, int sc) { while (sc > 0 && !(v & 1)) { v >>= 1; sc--; } Node n{CONST, KD, (int8_t)sc, 0, 0, 0, v, v, v, v}; return intern(n); }
static bool isC(u32 a) { return N[a].op == CONST; }
static const int MAXSC = 24;
static bool dgrid(double d, i64 &v, int &sc) {
  if (!(std::fabs(d) < (double)(1LL << 30))) return false;
  sc = 0; double x = d;
  while (x != std::floor(x)) { if (++sc > MAXSC) return false; x *= 2; }
  v = (i64)x; return true;
}
static double dval(const Node &n) { return std::ldexp((double)n.cv, -n.sc); }
static double dval(u32 a) { return dval(N[a]); }
static double dlo(u32 a) { return std::ldexp((double)N[a].lo, -N[a].sc); }
static double dhi(u32 a) { return std::ldexp((double)N[a].hi, -N[a].sc); }
// after the path has fixed a node to a constant, use the constant
static u32 norm(u32 a) {
  if (!a) return a;
  auto it = knownConst.find(a);
  if (it == knownConst.end()) { if (N[a].kind == 1) { auto b = knownBool.find(a); if (b != knownBool.end()) return mkc(1, b->second); } return a; }
  return N[a].kind == KD ? mkdc(it->second, N[a].sc) : mkc(N[a].kind, it->second);
}
static u32 fin(u32 a) { return a && isC(a) ? 0 : a; } // constants are "concrete" outside
static const i64 DLIM = 1LL << 50;

static void record(u32 cond, bool taken, int kind); // fwd
static void concNode(u32 s);

// ---- booleans
static u32 mkNot(u32 a) {
  if (isC(a)) return mkc(1, !N[a].cv);
  if (N[a].op == NOT) return N[a].a;
  const Node &x = N[a];
  if (x.op == DLT) { Node n{DLE, 1, 0, x.b, x.a, 0, 0, 0, 1, !x.cv}; return intern(n); }
  if (x.op == DLE) { Node n{DLT, 1, 0, x.b, x.a, 0, 0, 0, 1, !x.cv}; return intern(n); }
  if (x.op == SLT) { Node n{SLE, 1, 0, x.b, x.a, 0, 0, 0, 1, !x.cv}; return intern(n); }
  if (x.op == SLE) { Node n{SLT, 1, 0, x.b, x.a, 0, 0, 0, 1, !x.cv}; return intern(n); }
  Node n{NOT, 1, 0, a, 0, 0, 0, 0, 1, !x.cv}; return intern(n);
}
static u32 mkBool2(Op op, u32 a, u32 b) { // AND OR XOR on 1-bit
  if (a == b) return op == XOR ? mkc(1, 0) : a;
  if (isC(b)) std::swap(a, b);
  if (isC(a)) { bool v = N[a].cv;
    if (op == AND) return v ? b : a; if (op == OR) return v ? a : b; return v ? mkNot(b) : b; }
  if (mkNot(a) == b) return mkc(1, op == AND ? 0 : 1);
  if (N[a].h > N[b].h) std::swap(a, b);
  bool x = N[a].cv, y = N[b].cv; bool v = op == AND ? x && y : op == OR ? x || y : x != y;
  Node n{op, 1, 0, a, b, 0, 0, 0, 1, v}; return intern(n);
}
static u32 mkIteB(u32 c, u32 t, u32 f) {
  if (isC(c)) return N[c].cv ? t : f; if (t == f) return t;
  if (isC(t)) return N[t].cv ? mkBool2(OR, c, f) : mkBool2(AND, mkNot(c), f);
  if (isC(f)) return N[f].cv ? mkBool2(OR, mkNot(c), t) : mkBool2(AND, c, t);
  if (N[c].op == NOT) { c = N[c].a; std::swap(t, f); }
  Node n{ITE, 1, 0, c, t, f, 0, 0, 1, N[c].cv ? N[t].cv : N[f].cv}; return intern(n);
}
// ---- integers
static u32 mkIte(u32 c, u32 t, u32 f) {
  if (isC(c)) return N[c].cv ? t : f; if (t == f) return t;
  if (N[t].kind == 1) return mkIteB(c, t, f);
  if (N[c].op == NOT) { c = N[c].a; std::swap(t, f); }
  if (N[t].kind == KD) {
    int sc = std::max(N[t].sc, N[f].sc); auto al = [&](u32 x, i64 v) { return v << (sc - N[x].sc); };
    Node n{ITE, KD, (int8_t)sc, c, t, f, 0, std::min(al(t, N[t].lo), al(f, N[f].lo)), std::max(al(t, N[t].hi), al(f, N[f].hi)), N[c].cv ? al(t, N[t].cv) : al(f, N[f].cv)};
    return intern(n);
  }
  Node n{ITE, N[t].kind, 0, c, t, f, 0, std::min(N[t].lo, N[f].lo), std::max(N[t].hi, N[f].hi), N[c].cv ? N[t].cv : N[f].cv}; return intern(n);
}
static bool iteC(u32 a) { return N[a].op == ITE && N[a].kind != KD && isC(N[a].b) && isC(N[a].c); }
static i64 evalBin(Op op, unsigned w, i64 a, i64 b) {
  u64 ua = zx(a, w), ub = zx(b, w), r = 0;
  switch (op) {
  case ADD: r = ua + ub; break; case SUB: r = ua - ub; break; case MUL: r = ua * ub; break;
  case UDIV: r = ub ? ua / ub : 0; break; case UREM: r = ub ? ua % ub : 0; break;
  case SDIV: r = b ? (b == -1 ? (u64)0 - (u64)a : (u64)(a / b)) : 0; break; case SREM: r = (b && b != -1) ? (u64)(a % b) : 0; break;
  case SHL: r = ub < w ? ua << ub : 0; break; case LSHR: r = ub < w ? ua >> ub : 0; break; case ASHR: r = (u64)(a >> (ub < 63 ? ub : 63)); break;
  case AND: r = ua & ub; break; case OR: r = ua | ub; break; case XOR: r = ua ^ ub; break;
  default: break; }
  return sx(zx(r, w), w);
}
static int bitsFor(i64 lo, i64 hi) { int w = 1; while (w < 64 && (lo < smin(w + 0) || hi > smax(w)) ) w++; if (w == 1) w = 2; return w; }
static i64 smin2(int w) { return w >= 64 ? INT64_MIN : -(1LL << (w - 1)); }
static u32 mkBin(Op op, unsigned w, u32 a, u32 b) {
  a = norm(a); b = norm(b);
  if (w == 1) {
    switch (op) { case AND: case OR: case XOR: return mkBool2(op, a, b); case ADD: case SUB: return mkBool2(XOR, a, b); case MUL: return mkBool2(AND, a, b);
    default: concNode(a); concNode(b); return mkc(1, evalBin(op, 1, N[a].cv, N[b].cv)); }
  }
  if (isC(a) && isC(b)) return mkc(w, evalBin(op, w, N[a].cv, N[b].cv));
  if (N[a].op == BITS) { concNode(a); a = mkc(64, N[a].cv); } if (N[b].op == BITS) { concNode(b); b = mkc(64, N[b].cv); }
  if (isC(a) && isC(b)) return mkc(w, evalBin(op, w, N[a].cv, N[b].cv));
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b) && iteC(a)) { u32 c = N[a].a; return mkIte(c, mkc(w, evalBin(op, w, N[N[a].b].cv, N[b].cv)), mkc(w, evalBin(op, w, N[N[a].c].cv, N[b].cv))); }
  if (isC(a) && iteC(b)) { u32 c = N[b].a; return mkIte(c, mkc(w, evalBin(op, w, N[a].cv, N[N[b].b].cv)), mkc(w, evalBin(op, w, N[a].cv, N[N[b].c].cv))); }
  if (iteC(a) && iteC(b) && N[a].a == N[b].a) { u32 c = N[a].a; return mkIte(c, mkc(w, evalBin(op, w, N[N[a].b].cv, N[N[b].b].cv)), mkc(w, evalBin(op, w, N[N[a].c].cv, N[N[b].c].cv))); }
  i64 cb = isC(b) ? N[b].cv : 0; bool kb = isC(b);
  if (kb && cb == 0 && (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
  if (kb && cb == 0 && (op == MUL || op == AND)) return b;
  if (kb && cb == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
  if (kb && cb == -1 && op == AND) return a;
  if (a == b && (op == SUB || op == XOR)) return mkc(w, 0);
  if (a == b && (op == AND || op == OR)) return a;
  if (op == SUB && kb && cb != INT64_MIN) { op = ADD; b = mkc(w, -cb); cb = N[b].cv; }
  if (op == ADD && kb && N[a].op == ADD && isC(N[a].b)) { u32 x = N[a].a; return mkBin(ADD, w, x, mkc(w, evalBin(ADD, w, N[N[a].b].cv, cb))); }
  if ((op == SHL) && kb && (u64)cb < w && cb < 62) { op = MUL; b = mkc(w, 1LL << cb); cb = N[b].cv; if (cb <= 0) { /* sign bit */ } }
  else if ((op == SHL || op == LSHR || op == ASHR) && !kb) { concNode(b); return mkBin(op, w, a, mkc(w, N[b].cv)); }
  if ((op == UDIV || op == UREM || op == SDIV || op == SREM) && !kb) { concNode(b); return mkBin(op, w, a, mkc(w, N[b].cv)); }
  if (op == LSHR && kb && N[a].op == CONCAT && (unsigned)cb >= N[N[a].b].kind) { u32 h = N[a].a; unsigned wl = N[N[a].b].kind, wh = N[h].kind; // zext(hi >> (k-wl))
    u32 r = mkBin(LSHR, wh, h, mkc(wh, cb - wl)); if (isC(r)) return mkc(w, zx(N[r].cv, wh));
    Node n{ZEXT, (u8)w, 0, r, 0, 0, 0, 0, 0, 0}; n.cv = zx(N[r].cv, wh); n.lo = N[r].lo >= 0 ? N[r].lo : 0; n.hi = N[r].lo >= 0 ? N[r].hi : (i64)zx(-1, wh); return intern(n); }
  i128 alo = N[a].lo, ahi = N[a].hi, blo = N[b].lo, bhi = N[b].hi, lo, hi; i64 mn = smin2(w), mx = smax(w);
  bool nn = alo >= 0 && blo >= 0;
  switch (op) {
  case ADD: lo = alo + blo; hi = ahi + bhi; break;
  case SUB: lo = alo - bhi; hi = ahi - blo; break;
  case MUL: { i128 p[4] = {alo * blo, alo * bhi, ahi * blo, ahi * bhi}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); break; }
  case UDIV: if (nn && cb > 0) { lo = alo / cb; hi = ahi / cb; } else { lo = mn; hi = mx; } break;
  case UREM: if (nn && cb > 0) { if (ahi < cb) return a; lo = 0; hi = cb - 1; } else { lo = mn; hi = mx; } break;
  case SDIV: if (cb > 0) { lo = alo / cb; hi = ahi / cb; } else { lo = mn; hi = mx; } break;
  case SREM: if (cb > 0) { if (alo >= 0 && ahi < cb) return a; lo = alo < 0 ? -(cb - 1) : 0; hi = ahi > 0 ? cb - 1 : 0; } else { lo = mn; hi = mx; } break;
  case LSHR: if ((u64)cb >= w) return mkc(w, 0); if (alo >= 0) { lo = alo >> cb; hi = ahi >> cb; } else { lo = 0; hi = (i128)(zx(-1, w) >> cb); } break;
  case ASHR: { i64 k = std::min<i64>(cb, 63); lo = (i64)alo >> k; hi = (i64)ahi >> k; break; }
  case AND: if (kb && cb < 0 && ((-cb) & (-cb - 1)) == 0) { lo = (i64)alo & cb; hi = (i64)ahi & cb; break; } // clears low bits: monotone
    if (blo >= 0 && alo >= 0) { lo = 0; hi = std::min(ahi, bhi); } else if (blo >= 0) { lo = 0; hi = bhi; } else if (alo >= 0) { lo = 0; hi = ahi; } else { int tw = std::max(bitsFor((i64)alo, (i64)ahi), bitsFor((i64)blo, (i64)bhi)); lo = smin2(tw); hi = smax(tw); } break;
  case OR: case XOR: if (nn) { i128 m = std::max(ahi, bhi); i128 p = 1; while (p <= m) p <<= 1; lo = 0; hi = p - 1; } else { int tw = std::max(bitsFor((i64)alo, (i64)ahi), bitsFor((i64)blo, (i64)bhi)); lo = smin2(tw); hi = smax(tw); } break;
  default: lo = mn; hi = mx; }
  if (lo < mn || hi > mx) { lo = mn; hi = mx; }
  if (comm && !isC(b) && N[a].h > N[b].h) std::swap(a, b);
  Node n{op, (u8)w, 0, a, b, 0, 0, (i64)lo, (i64)hi, evalBin(op, w, N[a].cv, N[b].cv)};
  if (lo == hi) return mkc(w, (i64)lo);
  return intern(n);
}
static u32 mkZext(u32 a, unsigned w2); static u32 mkTrunc(u32 a, unsigned w2);
static u32 mkEq(u32 a, u32 b) {
  a = norm(a); b = norm(b);
  if (a == b) return mkc(1, 1);
  if (N[a].kind == 1) return mkNot(mkBool2(XOR, a, b));
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkc(1, N[a].cv == N[b].cv);
  if (N[a].hi < N[b].lo || N[b].hi < N[a].lo) return mkc(1, 0);
  if (isC(b)) {
    if (iteC(a)) return mkIteB(N[a].a, mkc(1, N[N[a].b].cv == N[b].cv), mkc(1, N[N[a].c].cv == N[b].cv));
    if (N[a].op == ZEXT && N[b].cv >= 0) { u32 x = N[a].a; if (zx(N[b].cv, 64) > zx(-1, N[x].kind)) return mkc(1, 0); return mkEq(x, mkc(N[x].kind, N[b].cv)); }
    if (N[a].op == SEXT) { u32 x = N[a].a; if (N[b].cv < smin2(N[x].kind) || N[b].cv > smax(N[x].kind)) return mkc(1, 0); return mkEq(x, mkc(N[x].kind, N[b].cv)); }
    if (N[a].op == ADD && isC(N[a].b)) return mkEq(N[a].a, mkc(N[a].kind, evalBin(SUB, N[a].kind, N[b].cv, N[N[a].b].cv)));
  }
  if (N[a].op == BITS && N[b].op == BITS) { extern u32 mkDCmp(Op, u32, u32); return mkDCmp(DEQ, N[a].a, N[b].a); }
  if (N[a].op == BITS) { concNode(a); return mkEq(mkc(64, N[a].cv), b); }
  if (N[b].op == BITS) { concNode(b); return mkEq(a, mkc(64, N[b].cv)); }
  if (!isC(b) && N[a].h > N[b].h) std::swap(a, b);
  Node n{EQ, 1, 0, a, b, 0, 0, 0, 1, N[a].cv == N[b].cv}; return intern(n);
}
static u32 mkSlt(u32 a, u32 b, bool le) {
  a = norm(a); b = norm(b);
  if (a == b) return mkc(1, le);
  if (N[a].kind == 1) { // signed i1: 1 is -1
    u32 r = mkBool2(AND, a, mkNot(b)); return le ? mkBool2(OR, r, mkNot(mkBool2(XOR, a, b))) : r; }
  if (le ? N[a].hi <= N[b].lo : N[a].hi < N[b].lo) return mkc(1, 1);
  if (le ? N[a].lo > N[b].hi : N[a].lo >= N[b].hi) return mkc(1, 0);
  if (isC(b) && iteC(a)) { auto f = [&](u32 x) { return mkc(1, le ? N[x].cv <= N[b].cv : N[x].cv < N[b].cv); }; return mkIteB(N[a].a, f(N[a].b), f(N[a].c)); }
  if (isC(a) && iteC(b)) { auto f = [&](u32 x) { return mkc(1, le ? N[a].cv <= N[x].cv : N[a].cv < N[x].cv); }; return mkIteB(N[b].a, f(N[b].b), f(N[b].c)); }
  if (N[a].op == BITS) { concNode(a); return mkSlt(mkc(64, N[a].cv), b, le); } if (N[b].op == BITS) { concNode(b); return mkSlt(a, mkc(64, N[b].cv), le); }
  if (N[a].op == ADD && isC(N[a].b) && isC(b)) { // x + c < d -> x < d - c when nothing wraps
    i128 d = (i128)N[b].cv - N[N[a].b].cv; i128 xl = N[N[a].a].lo, xh = N[N[a].a].hi, c = N[N[a].b].cv; unsigned w = N[a].kind;
    if (xl + c >= smin2(w) && xh + c <= smax(w) && d >= smin2(w) && d <= smax(w)) return mkSlt(N[a].a, mkc(w, (i64)d), le); }
  // normalise x <= c to x < c+1
  if (le && isC(b)) return mkSlt(a, mkc(N[b].kind, N[b].cv + 1), false);
  if (le && isC(a)) return mkSlt(mkc(N[a].kind, N[a].cv - 1), b, false);
  bool v = le ? N[a].cv <= N[b].cv : N[a].cv < N[b].cv;
  Node n{le ? SLE : SLT, 1, 0, a, b, 0, 0, 0, 1, v}; return intern(n);
}
static u32 mkUlt(u32 a, u32 b, bool le) {
  a = norm(a); b = norm(b);
  if (a == b) return mkc(1, le);
  unsigned w = N[a].kind;
  if (w == 1) { u32 r = mkBool2(AND, b, mkNot(a)); return le ? mkBool2(OR, r, mkNot(mkBool2(XOR, a, b))) : r; }
  if (N[a].lo >= 0 && N[b].lo >= 0) return mkSlt(a, b, le);
  if (isC(a) && isC(b)) return mkc(1, le ? zx(N[a].cv, w) <= zx(N[b].cv, w) : zx(N[a].cv, w) < zx(N[b].cv, w));
  if (N[a].lo >= 0 && N[b].hi < 0) return mkc(1, 1);
  if (N[a].hi < 0 && N[b].lo >= 0) return mkc(1, 0);
  if (isC(b) && iteC(a)) { auto f = [&](u32 x) { return mkc(1, le ? zx(N[x].cv, w) <= zx(N[b].cv, w) : zx(N[x].cv, w) < zx(N[b].cv, w)); }; return mkIteB(N[a].a, f(N[a].b), f(N[a].c)); }
  if (N[a].op == BITS) { concNode(a); return mkUlt(mkc(64, N[a].cv), b, le); } if (N[b].op == BITS) { concNode(b); return mkUlt(a, mkc(64, N[b].cv), le); }
  if (le) return mkNot(mkUlt(b, a, false));
  Node n{ULT, 1, 0, a, b, 0, 0, 0, 1, zx(N[a].cv, w) < zx(N[b].cv, w)}; return intern(n);
}
static u32 mkZext(u32 a, unsigned w2) {
  a = norm(a);
  unsigned w = N[a].kind; if (w == w2) return a;
  if (isC(a)) return mkc(w2, zx(N[a].cv, w));
  if (w == 1) return mkIte(a, mkc(w2, 1), mkc(w2, 0));
  if (iteC(a)) return mkIte(N[a].a, mkc(w2, zx(N[N[a].b].cv, w)), mkc(w2, zx(N[N[a].c].cv, w)));
  if (N[a].op == ZEXT) return mkZext(N[a].a, w2);
  Node n{ZEXT, (u8)w2, 0, a, 0, 0, 0, 0, 0, (i64)zx(N[a].cv, w)};
  if (N[a].lo >= 0) { n.lo = N[a].lo; n.hi = N[a].hi; } else { n.lo = 0; n.hi = (i64)zx(-1, w); }
  return intern(n);
}
static u32 mkSext(u32 a, unsigned w2) {
  a = norm(a);
  unsigned w = N[a].kind; if (w == w2) return a;
  if (w == 1) return mkIte(a, mkc(w2, -1), mkc(w2, 0));
  if (isC(a)) return mkc(w2, N[a].cv);
  if (iteC(a)) return mkIte(N[a].a, mkc(w2, N[N[a].b].cv), mkc(w2, N[N[a].c].cv));
  if (N[a].lo >= 0) return mkZext(a, w2);
  Node n{SEXT, (u8)w2, 0, a, 0, 0, 0, N[a].lo, N[a].hi, N[a].cv}; return intern(n);
}
static u32 mkTrunc(u32 a, unsigned w2) {
  a = norm(a);
  unsigned w = N[a].kind; if (w == w2) return a;
  if (isC(a)) return mkc(w2, N[a].cv);
  if (N[a].op == BITS) { concNode(a); return mkc(w2, N[a].cv); }
  if (iteC(a)) return mkIte(N[a].a, mkc(w2, N[N[a].b].cv), mkc(w2, N[N[a].c].cv));
  if (N[a].op == CONCAT) { u32 l = N[a].b; if (w2 <= N[l].kind) return mkTrunc(l, w2); }
  if (N[a].op == ZEXT || N[a].op == SEXT) { u32 x = N[a].a; if (N[x].kind == w2) return x; if (N[x].kind > w2) return mkTrunc(x, w2); return N[a].op == ZEXT ? mkZext(x, w2) : mkSext(x, w2); }
  if (w2 > 1 && (N[a].op == ADD || N[a].op == SUB || N[a].op == MUL || N[a].op == AND || N[a].op == OR || N[a].op == XOR)) { Op o = N[a].op; u32 x = N[a].a, y = N[a].b; return mkBin(o, w2, mkTrunc(x, w2), mkTrunc(y, w2)); }
  if (w2 == 1 && N[a].lo >= 0 && N[a].hi <= 1) return mkNot(mkEq(a, mkc(w, 0)));
  Node n{TRUNC, (u8)w2, 0, a, 0, 0, 0, 0, 0, sx(zx(N[a].cv, w2), w2)};
  if (w2 == 1) { n.lo = 0; n.hi = 1; }
  else if (N[a].lo >= smin2(w2) && N[a].hi <= smax(w2)) { n.lo = N[a].lo; n.hi = N[a].hi; } else { n.lo = smin2(w2); n.hi = smax(w2); }
  return intern(n);
}
static u32 mkConcat(u32 h, u32 l) {
  unsigned wh = N[h].kind, wl = N[l].kind, w = wh + wl; 
  if (isC(h) && isC(l)) return mkc(w, (i64)((zx(N[h].cv, wh) << wl) | zx(N[l].cv, wl)));
  if (isC(h) && N[h].cv == 0) return mkZext(l, w);
  Node n{CONCAT, (u8)w, 0, h, l, 0, 0, smin2(w), smax(w), sx((zx(N[h].cv, wh) << wl) | zx(N[l].cv, wl), w)};
  return intern(n);
}
// ---- doubles
static bool okd(i128 lo, i128 hi, int sc) { return sc <= MAXSC && lo > -(i128)DLIM && hi < (i128)DLIM; }
static i128 shl(i64 v, int k) { return (i128)v << k; }
static u32 mkDAdd(u32 a, u32 b, bool sub) {
  a = norm(a); b = norm(b);
  if (isC(b) && N[b].cv == 0) return a;
  if (!sub && isC(a) && N[a].cv == 0) return b;
  if (sub && a == b) return mkdc(0, 0);
  int sc = std::max(N[a].sc, N[b].sc); int ka = sc - N[a].sc, kb = sc - N[b].sc;
  i128 alo = shl(N[a].lo, ka), ahi = shl(N[a].hi, ka), blo = shl(N[b].lo, kb), bhi = shl(N[b].hi, kb);
  i128 lo = sub ? alo - bhi : alo + blo, hi = sub ? ahi - blo : ahi + bhi;
  if (!okd(lo, hi, sc)) return 0;
  i64 cv = (i64)(sub ? shl(N[a].cv, ka) - shl(N[b].cv, kb) : shl(N[a].cv, ka) + shl(N[b].cv, kb));
  if (isC(a) && isC(b)) return mkdc(cv, sc);
  if (isC(b)) { // (x + c1) + c2
    if (sub) { b = mkdc(-N[b].cv, N[b].sc); sub = false; }
    if (N[a].op == DADD && isC(N[a].b)) { u32 x = N[a].a; u32 s = mkDAdd(N[a].b, b, false); if (s) return mkDAdd(x, s, false); }
  }
  if (!sub && isC(a)) { std::swap(a, b); if (N[a].op == DADD && isC(N[a].b)) { u32 x = N[a].a; u32 s = mkDAdd(N[a].b, b, false); if (s) return mkDAdd(x, s, false); } }
  if (!sub && N[b].op == DSUB && isC(N[b].a) && N[N[b].a].cv == 0) return mkDAdd(a, N[b].b, true); // a + (0-y)
  if (sub && N[b].op == DSUB && isC(N[b].a) && N[N[b].a].cv == 0) return mkDAdd(a, N[b].b, false);
  if (!sub && !isC(b) && N[a].h > N[b].h) std::swap(a, b);
  Node n{sub ? DSUB : DADD, KD, (int8_t)sc, a, b, 0, 0, (i64)lo, (i64)hi, cv}; return intern(n);
}
static u32 mkDNeg(u32 a) { if (N[a].op == DSUB && isC(N[a].a) && N[N[a].a].cv == 0) return N[a].b; if (N[a].op == DSUB) return mkDAdd(N[a].b, N[a].a, true); return mkDAdd(mkdc(0, 0), a, true); }
static u32 mkDMulC(u32 a, i64 k, int ksc) { // a * k / 2^ksc
  a = norm(a);
  if (k == 0) return mkdc(0, 0);
  int tz = 0; while (!(k & 1)) { k /= 2; tz++; }
  int sc = N[a].sc + ksc - tz; i64 m = k;
  while (sc < 0) { m *= 2; sc++; if (m > (1LL << 40) || m < -(1LL << 40)) return 0; }
  if (m == 1 && sc == N[a].sc) return a;
  i128 x = (i128)N[a].lo * m, y = (i128)N[a].hi * m; if (x > y) std::swap(x, y);
  if (!okd(x, y, sc)) return 0;
  if (isC(a)) return mkdc(N[a].cv * m, sc);
  Node n{DMULC, KD, (int8_t)sc, a, 0, 0, m, (i64)x, (i64)y, N[a].cv * m}; return intern(n);
}
u32 mkDCmp(Op op, u32 a, u32 b) {
  a = norm(a); b = norm(b);
  if (a == b) return mkc(1, op != DLT);
  int sc = std::max(N[a].sc, N[b].sc); int ka = sc - N[a].sc, kb = sc - N[b].sc;
  i128 alo = shl(N[a].lo, ka), ahi = shl(N[a].hi, ka), blo = shl(N[b].lo, kb), bhi = shl(N[b].hi, kb), av = shl(N[a].cv, ka), bv = shl(N[b].cv, kb);
  if (op == DLT) { if (ahi < blo) return mkc(1, 1); if (alo >= bhi) return mkc(1, 0); }
  else if (op == DLE) { if (ahi <= blo) return mkc(1, 1); if (alo > bhi) return mkc(1, 0); }
  else { if (ahi < blo || bhi < alo) return mkc(1, 0); if (alo == ahi && blo == bhi) return mkc(1, alo == blo); if (isC(a)) std::swap(a, b), std::swap(av, bv); else if (!isC(b) && N[a].h > N[b].h) std::swap(a, b), std::swap(av, bv); }
  // move constants to one side: (x + c) op d
  if (N[a].op == DADD && isC(N[a].b) && isC(b)) { u32 x = N[a].a; u32 d = mkDAdd(b, N[a].b, true); if (d) return mkDCmp(op, x, d); }
  if (N[b].op == DADD && isC(N[b].b) && isC(a)) { u32 x = N[b].a; u32 d = mkDAdd(a, N[b].b, true); if (d) return mkDCmp(op, d, x); }
  // (0 - y) op d
  if (N[a].op == DSUB && isC(N[a].a) && isC(b)) { u32 y = N[a].b; u32 d = mkDAdd(N[a].a, b, true); if (d) return op == DEQ ? mkDCmp(DEQ, y, d) : mkDCmp(op, d, y); }
  if (N[b].op == DSUB && isC(N[b].a) && isC(a)) { u32 y = N[b].b; u32 d = mkDAdd(N[b].a, a, true); if (d) return mkDCmp(op, y, d); }
  bool v = op == DLT ? av < bv : op == DLE ? av <= bv : av == bv;
  Node n{op, 1, 0, a, b, 0, 0, 0, 1, v}; return intern(n);
}
static u32 mkFloor(u32 a) {
  a = norm(a);
  if (N[a].sc == 0) return a; int k = N[a].sc;
  if (isC(a)) return mkdc(N[a].cv >> k, 0);
  if ((N[a].lo >> k) == (N[a].hi >> k)) return mkdc(N[a].lo >> k, 0);
  Node n{DFLOOR, KD, 0, a, 0, 0, 0, N[a].lo >> k, N[a].hi >> k, N[a].cv >> k}; return intern(n);
}
static u32 mkCeil(u32 a) { return mkDNeg(mkFloor(mkDNeg(a))); }

// ------------------------------------------------------------------ path
struct Rec { u32 cond; bool taken; int kind; int label; }; // kind 0 branch, 1 assertion, 2 assumption without flip
static std::vector<Rec> path; static std::vector<std::string> labels;
static std::set<std::pair<u32, bool>> seenAssert;
struct VarInfo { std::string name; int lo, hi; u32 node; i64 val; int sc; };
static std::vector<VarInfo> vars;
static std::map<std::string, i64> model; // input values of this path
static std::map<std::string, u64> reached;
static u64 digest = 1469598103934665603ULL;
static u64 wantHash = 0; static size_t bound = 0, maxBranches = 200000;
static bool active = false; // symbolic execution on
static u64 seed = 1;
[[noreturn]] static void finish(const char *ev, const std::string &msg);

static bool symActive() { return active; }
static void learn(u32 c, bool v) {
  knownBool[c] = v; knownBool[mkNot(c)] = !v;
  Node n = N[c];
  if (n.op == NOT) { learn(n.a, !v); return; }
  if (v && n.op == AND) { if (!knownBool.count(n.a)) learn(n.a, true); if (!knownBool.count(n.b)) learn(n.b, true); }
  if (!v && n.op == OR) { if (!knownBool.count(n.a)) learn(n.a, false); if (!knownBool.count(n.b)) learn(n.b, false); }
  if (v && n.op == EQ && isC(n.b)) knownConst[n.a] = N[n.b].cv;
  if (v && n.op == DEQ && isC(n.b) && N[n.a].sc >= N[n.b].sc) knownConst[n.a] = N[n.b].cv << (N[n.a].sc - N[n.b].sc);
}
static void record(u32 c, bool taken, int kind) {
  if (isC(c)) return;
  auto it = knownBool.find(c); if (it != knownBool.end()) { if (it->second != taken) { ST.mism++; mark("inconsistent branch"); } return; }
  if ((bool)N[c].cv != taken) { ST.mism++; mark("branch value mismatch"); return; }
  path.push_back({c, taken, kind, -1}); learn(c, taken);
  if (path.size() > maxBranches) { mark("branch bound"); finish("BOUND", "too many branches"); }
}
static u32 eqConst(u32 a) { if (N[a].kind == KD) return mkDCmp(DEQ, a, mkdc(N[a].cv, N[a].sc)); return N[a].kind == 1 ? (N[a].cv ? a : mkNot(a)) : mkEq(a, mkc(N[a].kind, N[a].cv)); }
static void concNode(u32 s) {
  if (!s || isC(s)) return;
  if (N[s].op == BITS) { concNode(N[s].a); return; }
  s = norm(s); if (isC(s)) return;
  ST.conc++;
  static int tr = -1; if (tr < 0) tr = getenv("SV_TRACE") ? 1 : 0;
  if (tr) fprintf(stderr, "conc node %u op %d val %lld range [%lld,%lld]\n", s, N[s].op, (long long)N[s].cv, (long long)N[s].lo, (long long)N[s].hi);
  if (N[s].kind == 1) { record(s, N[s].cv, 0); return; }
  if (iteC(s)) { u32 c = norm(N[s].a); if (!isC(c)) record(c, N[c].cv, 0); learn(eqConst(s), true); return; }
  // the value is pinned by a sequence of decisions that does not depend on the value (bisection), so that
  // every decision can be flipped and replayed
  i64 lo = N[s].lo, hi = N[s].hi, v = N[s].cv; bool d = N[s].kind == KD;
  while (lo < hi) {
    i64 mid = (i64)(((i128)lo + hi + 1) >> 1);
    u32 c = d ? mkDCmp(DLT, s, mkdc(mid, N[s].sc)) : mkSlt(s, mkc(N[s].kind, mid), false);
    if (!isC(c)) record(c, v < mid, 0);
    if (v < mid) hi = mid - 1; else lo = mid;
  }
  learn(eqConst(s), true);
}

// ------------------------------------------------------------------ shadow memory
struct Page { u32 id[4096]; u8 off[4096]; u32 live; };
static std::unordered_map<u64, Page *> pages;
struct CE { u64 pg; Page *p; };
static CE pcache[8192];
static Page *getPage(u64 pg, bool create) {
  CE &e = pcache[pg & 8191];
  if (e.pg == pg && (e.p || !create)) return e.p;
  auto it = pages.find(pg); Page *p = it == pages.end() ? nullptr : it->second;
  if (!p && create) { p = (Page *)calloc(1, sizeof(Page)); pages[pg] = p; }
  e.pg = pg; e.p = p; return p;
}
static inline u32 *cell(u64 a, u8 *&off, bool create) { Page *p = getPage(a >> 12, create); if (!p) return nullptr; off = &p->off[a & 4095]; return &p->id[a & 4095]; }

extern "C" {
void svrt_clear(void *ptr, u64 n) {
  if (!ptr || !active) return;
  u64 a = (u64)ptr, e = a + n;
  while (a < e) {
    u64 pe = std::min(e, (a | 4095) + 1); Page *p = getPage(a >> 12, false);
    if (p) memset(&p->id[a & 4095], 0, (pe - a) * sizeof(u32));
    a = pe;
  }
}
static unsigned nodeBytes(u32 s) { return N[s].kind == KD ? 8 : (N[s].kind + 7) / 8; }
void svrt_store(void *ptr, u32 n, u64 bits, u32 s) {
  if (!active) return;
  (void)bits;
  if (!s) { svrt_clear(ptr, n); return; }
  s = norm(s);
  if (isC(s)) { svrt_clear(ptr, n); return; }
  u64 a = (u64)ptr;
  for (unsigned i = 0; i < n; i++) { u8 *o; u32 *c = cell(a + i, o, true); *c = s; *o = i; }
}
static u64 nodeBits(u32 s) { // concrete representation
  const Node &n = N[s];
  if (n.kind == KD) { double d = dval(n); u64 b; memcpy(&b, &d, 8); return b; }
  return zx(n.cv, n.kind);
}
u32 svrt_load(void *ptr, u32 n, u32 w) {
  if (!active) return 0;
  u64 a = (u64)ptr; Page *p = getPage(a >> 12, false);
  bool cross = ((a & 4095) + n > 4096);
  if (!p && !cross) return 0;
  u32 ids[16]; u8 offs[16]; bool any = false;
  for (unsigned i = 0; i < n; i++) { u8 *o = nullptr; u32 *c = cell(a + i, o, false); ids[i] = c ? *c : 0; offs[i] = c ? *o : 0; if (ids[i]) any = true; }
  if (!any) return 0;
  // stale shadows (memory written by code that is not instrumented)
  for (unsigned i = 0; i < n; i++) if (ids[i]) {
    u8 have = ((u8 *)ptr)[i]; u8 want = (u8)(nodeBits(ids[i]) >> (8 * offs[i]));
    if (have != want && !(N[ids[i]].kind == KD && N[ids[i]].cv == 0)) { ids[i] = 0; u8 *o; u32 *c = cell(a + i, o, false); if (c) *c = 0; ST.stale++; }
  }
  u32 s = ids[0];
  bool whole = s && offs[0] == 0 && nodeBytes(s) == n;
  for (unsigned i = 1; i < n && whole; i++) whole = ids[i] == s && offs[i] == i;
  if (whole) {
    if (w == 0) { if (N[s].kind == KD) return fin(norm(s)); if (N[s].op == BITS) return fin(norm(N[s].a)); concNode(s); return 0; }
    if (N[s].kind == KD) { if (isC(norm(s))) return 0; Node b{BITS, 64, 0, s, 0, 0, 0, INT64_MIN, INT64_MAX, (i64)nodeBits(s)}; return intern(b); }
    if (N[s].kind == w) return fin(norm(s));
    if (N[s].kind < w) return fin(mkZext(s, w));
    return fin(mkTrunc(s, w));
  }
  any = false; for (unsigned i = 0; i < n; i++) any |= ids[i] != 0;
  if (!any) return 0;
  if (w == 0 || n > 8) { for (unsigned i = 0; i < n; i++) if (ids[i]) concNode(ids[i]); return 0; }
  // compose byte by byte (low to high), grouping runs of the same expression
  u32 acc = 0; unsigned i = 0;
  while (i < n) {
    u32 piece; unsigned len = 1;
    if (!ids[i]) { u64 v = ((u8 *)ptr)[i]; while (i + len < n && !ids[i + len]) { v |= (u64)((u8 *)ptr)[i + len] << (8 * len); len++; } piece = mkc(8 * len, (i64)v); if (8 * len == 1) {} }
    else {
      u32 q = ids[i]; while (i + len < n && ids[i + len] == q && offs[i + len] == offs[i] + len) len++;
      if (N[q].kind == KD || N[q].op == BITS) { concNode(q); u64 v = 0; for (unsigned k = 0; k < len; k++) v |= (u64)((u8 *)ptr)[i + k] << (8 * k); piece = mkc(8 * len, (i64)v); }
      else {
        unsigned kw = N[q].kind; u32 x = q;
        if (kw < 8 * nodeBytes(q)) x = mkZext(x, 8 * nodeBytes(q));
        if (offs[i]) x = mkBin(LSHR, N[x].kind, x, mkc(N[x].kind, 8 * offs[i]));
        piece = mkTrunc(x, 8 * len);
      }
    }
    acc = acc ? mkConcat(piece, acc) : piece; i += len;
  }
  if (N[acc].kind != w) acc = N[acc].kind < w ? mkZext(acc, w) : mkTrunc(acc, w);
  return fin(acc);
}
void svrt_copy(void *d, void *s, u64 n) {
  if (!d || !s || !n || !active) return;
  u64 a = (u64)s, b = (u64)d; if (a == b) return;
  bool any = false;
  for (u64 x = a >> 12; x <= (a + n - 1) >> 12; x++) if (getPage(x, false)) { any = true; break; }
  if (!any) { svrt_clear(d, n); return; }
  bool back = b > a && b < a + n;
  for (u64 k = 0; k < n; k++) {
    u64 i = back ? n - 1 - k : k; u8 *so = nullptr; u32 *sc = cell(a + i, so, false); u32 id = sc ? *sc : 0; u8 of = sc ? *so : 0;
    if (id) { // drop stale bytes
      // (the source still holds its bytes here: the shadow copy precedes the data copy)
      u8 have = ((u8 *)s)[i]; u8 want = (u8)(nodeBits(id) >> (8 * of)); if (have != want && !(N[id].kind == KD && N[id].cv == 0)) { id = 0; ST.stale++; } }
    u8 *dof = nullptr; u32 *dc = cell(b + i, dof, id != 0); if (dc) { *dc = id; *dof = of; }
  }
}
void svrt_set(void *d, u64 n, u32 v, u32 s) {
  (void)v; if (!active) return;
  if (!s) { svrt_clear(d, n); return; }
  u32 b = mkTrunc(s, 8); if (isC(b)) { svrt_clear(d, n); return; }
  for (u64 i = 0; i < n; i++) { u8 *o; u32 *c = cell((u64)d + i, o, true); *c = b; *o = 0; }
}
void svrt_concmem(void *p, u64 n) {
  if (!active) return;
  for (u64 i = 0; i < n; i++) { u8 *o; u32 *c = cell((u64)p + i, o, false); if (c && *c) { concNode(*c); *c = 0; } }
}
static u32 ic(u32 w, u64 v, u32 s) { return s ? norm(s) : mkc(w, (i64)v); }
void svrt_conci(u32 w, u64 v, u32 s) { (void)w; (void)v; if (s) concNode(s); }
void svrt_concd(double v, u32 s) { (void)v; if (s) { ST.concd++; concNode(s); } }

u32 svrt_bin(u32 llop, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  Op op; switch (llop) { // llvm::Instruction opcodes of LLVM 18
  case 13: op = ADD; break; case 15: op = SUB; break; case 17: op = MUL; break; case 19: op = UDIV; break; case 20: op = SDIV; break;
  case 22: op = UREM; break; case 23: op = SREM; break; case 25: op = SHL; break; case 26: op = LSHR; break; case 27: op = ASHR; break;
  case 28: op = AND; break; case 29: op = OR; break; case 30: op = XOR; break; default: concNode(sa); concNode(sb); return 0; }
  return fin(mkBin(op, w, ic(w, a, sa), ic(w, b, sb)));
}
u32 svrt_icmp(u32 p, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 x = ic(w, a, sa), y = ic(w, b, sb), r;
  switch (p) { case 32: r = mkEq(x, y); break; case 33: r = mkNot(mkEq(x, y)); break;
  case 34: r = mkUlt(y, x, false); break; case 35: r = mkUlt(y, x, true); break; case 36: r = mkUlt(x, y, false); break; case 37: r = mkUlt(x, y, true); break;
  case 38: r = mkSlt(y, x, false); break; case 39: r = mkSlt(y, x, true); break; case 40: r = mkSlt(x, y, false); break; case 41: r = mkSlt(x, y, true); break;
  default: concNode(sa); concNode(sb); return 0; }
  return fin(r);
}
u32 svrt_minmax(u32, u32, u64, u32, u64, u32) { return 0; }
static u32 dc(double v, u32 s, bool &ok) { if (s) return norm(s); i64 k; int sc; if (dgrid(v, k, sc)) return mkdc(k, sc); ok = false; return 0; }
// compare expression x with the double c that is not on the grid: op 0: x<c, 1: x<=c, 2: x>c, 3: x>=c, 4: x==c
static u32 cmpOff(u32 x, double c, int op) {
  if (std::isnan(c)) return mkc(1, 0);
  double lo = dlo(x), hi = dhi(x);
  if (op == 4) return mkc(1, 0);
  bool lt = op <= 1;
  if (c > hi) return mkc(1, lt); if (c < lo) return mkc(1, !lt);
  double f = std::floor(std::ldexp(c, MAXSC)); // x < c  <=>  x <= floor_grid(c) as x is on the grid and c is not
  u32 k = mkdc((i64)f, MAXSC); u32 le = mkDCmp(DLE, x, k);
  return lt ? le : mkNot(le);
}
u32 svrt_fcmp(u32 p, double a, u32 sa, double b, u32 sb) {
  if (!(sa | sb)) return 0;
  if (p == 0) return 0; if (p == 15) return 0; if (p == 7 || p == 8) return 0; // ORD/UNO: grid values are never NaN; the other side is concrete
  bool un = p >= 8; u32 q = un ? p - 8 : p; // 1 EQ 2 GT 3 GE 4 LT 5 LE 6 NE
  bool ok = true; u32 x = dc(a, sa, ok); bool okx = ok; ok = true; u32 y = dc(b, sb, ok); bool oky = ok;
  if (sa) sa = x; if (sb) sb = y;
  u32 r;
  if (okx && oky) {
    switch (q) { case 1: r = mkDCmp(DEQ, x, y); break; case 2: r = mkDCmp(DLT, y, x); break; case 3: r = mkDCmp(DLE, y, x); break;
    case 4: r = mkDCmp(DLT, x, y); break; case 5: r = mkDCmp(DLE, x, y); break; case 6: r = mkNot(mkDCmp(DEQ, x, y)); break; default: return 0; }
  } else if (!okx && !oky) return 0;
  else {
    if (std::isnan(a) || std::isnan(b)) return 0;
    if (okx) { switch (q) { case 1: r = cmpOff(x, b, 4); break; case 6: r = mkNot(cmpOff(x, b, 4)); break; case 2: r = cmpOff(x, b, 2); break; case 3: r = cmpOff(x, b, 3); break; case 4: r = cmpOff(x, b, 0); break; default: r = cmpOff(x, b, 1); } }
    else { switch (q) { case 1: r = cmpOff(y, a, 4); break; case 6: r = mkNot(cmpOff(y, a, 4)); break; case 2: r = cmpOff(y, a, 0); break; case 3: r = cmpOff(y, a, 1); break; case 4: r = cmpOff(y, a, 2); break; default: r = cmpOff(y, a, 3); } }
  }
  return fin(r);
}
static u32 dfail(u32 sa, u32 sb) { ST.concd++; concNode(sa); concNode(sb); return 0; }
u32 svrt_fbin(u32 k, double a, u32 sa, double b, u32 sb) {
  if (!(sa | sb)) return 0;
  bool ok = true; u32 x = dc(a, sa, ok), y = dc(b, sb, ok);
  if (k <= 1) {
    if (!ok) { // one side is huge / infinite / not on the grid: exact only if the rounding absorbs the other side
      double c = sa ? b : a; u32 s = sa ? sa : sb; double lo = dlo(s), hi = dhi(s);
      double r1 = k == 0 ? (sa ? lo + c : c + lo) : (sa ? lo - c : c - lo), r2 = k == 0 ? (sa ? hi + c : c + hi) : (sa ? hi - c : c - hi);
      if (r1 == r2) return 0;
      return dfail(sa, sb);
    }
    u32 r = mkDAdd(x, y, k == 1); if (!r) return dfail(sa, sb); return fin(r);
  }
  if (k == 2) {
    if (ok && isC(y)) { u32 r = mkDMulC(x, N[y].cv, N[y].sc); return r ? fin(r) : dfail(sa, sb); }
    if (ok && isC(x)) { u32 r = mkDMulC(y, N[x].cv, N[x].sc); return r ? fin(r) : dfail(sa, sb); }
    if (!ok && sb) { if (dlo(sb) > 0 && a > 1e300) {} }
    return dfail(sa, sb);
  }
  if (k == 3 && ok && isC(y)) { double inv = 1.0 / b; i64 v; int sc; if (b != 0 && dgrid(inv, v, sc) && inv * b == 1.0 && (std::fabs(b) == std::exp2(std::floor(std::log2(std::fabs(b)))))) { u32 r = mkDMulC(x, v, sc); if (r) return fin(r); } }
  return dfail(sa, sb);
}
u32 svrt_fun(u32 k, double v, u32 s) {
  if (!s) return 0; s = norm(s); u32 r = 0; (void)v;
  switch (k) {
  case 0: { u32 c = mkDCmp(DLT, s, mkdc(0, 0)); r = mkIte(c, mkDNeg(s), s); break; }
  case 1: r = mkFloor(s); break; case 2: r = mkCeil(s); break;
  case 3: { u32 c = mkDCmp(DLT, s, mkdc(0, 0)); r = mkIte(c, mkCeil(s), mkFloor(s)); break; }
  case 6: r = mkDNeg(s); break;
  default: return dfail(s, 0); }
  return r ? fin(r) : dfail(s, 0);
}
u32 svrt_cast(u32 op, u32 w1, u32 w2, u64 v, u32 s) { (void)w1; (void)v; if (!s) return 0; s = norm(s);
  switch (op) { case 38: return fin(mkTrunc(s, w2)); case 39: return fin(mkZext(s, w2)); case 40: return fin(mkSext(s, w2)); default: return s; } }
u32 svrt_sitofp(u32 w, u64 v, u32 s) { (void)v; if (!s) return 0; s = norm(s); if (isC(s)) return 0; if (w == 1) { return fin(mkIte(s, mkdc(-1, 0), mkdc(0, 0))); }
  if (N[s].lo < -(1LL << 40) || N[s].hi > (1LL << 40)) { mark("wide int to double"); concNode(s); return 0; }
  Node n{SITOD, KD, 0, s, 0, 0, 0, N[s].lo, N[s].hi, N[s].cv}; return intern(n); }
u32 svrt_uitofp(u32 w, u64 v, u32 s) { if (!s) return 0; s = norm(s); if (isC(s)) return 0; if (w == 1) return fin(mkIte(s, mkdc(1, 0), mkdc(0, 0))); if (N[s].lo >= 0) return svrt_sitofp(w, v, s); if (w < 40) { u32 z = mkZext(s, 64); return svrt_sitofp(64, v, fin(z)); } concNode(s); return 0; }
u32 svrt_fptosi(u32 w, double v, u32 s) { (void)v; if (!s) return 0; s = norm(s); if (isC(s)) return 0;
  u32 t = N[s].sc == 0 ? s : N[s].lo >= 0 ? mkFloor(s) : mkIte(mkDCmp(DLT, s, mkdc(0, 0)), mkCeil(s), mkFloor(s));
  if (isC(t)) return 0;
  if (N[t].sc != 0) { mark("fptosi"); concNode(s); return 0; }
  if (N[t].lo < smin2(w) || N[t].hi > smax(w)) { concNode(s); return 0; }
  if (N[t].op == SITOD && N[N[t].a].kind == w) return N[t].a;
  Node n{DTOSI, (u8)w, 0, t, 0, 0, 0, N[t].lo, N[t].hi, N[t].cv}; return intern(n); }
u32 svrt_fptoui(u32 w, double v, u32 s) { if (!s) return 0; s = norm(s); if (isC(s)) return 0; if (N[s].lo >= 0 && w > 1) { if (w == 64 || N[s].hi >> N[s].sc <= smax(w)) return svrt_fptosi(w, v, s); u32 r = svrt_fptosi(64, v, s); return r ? fin(mkTrunc(r, w)) : 0; } 
  // a negative double converted to unsigned is undefined behaviour; x86-64 code goes through a signed conversion
  if (w == 64 || w == 32) { u32 r = svrt_fptosi(64, v, s); return r ? fin(mkTrunc(r, w)) : 0; }
  concNode(s); return 0; }
u32 svrt_bitsof(double v, u32 s) { (void)v; if (!s) return 0; s = norm(s); if (isC(s)) return 0; Node b{BITS, 64, 0, s, 0, 0, 0, INT64_MIN, INT64_MAX, (i64)nodeBits(s)}; return intern(b); }
u32 svrt_ofbits(u64 v, u32 s) { (void)v; if (!s) return 0; if (N[s].op == BITS) return fin(norm(N[s].a)); concNode(s); return 0; }
static void branch(bool c, u32 s) { s = norm(s); if (isC(s)) return; record(s, c, 0); }
void svrt_br(u32 c, u32 s) { if (s) branch(c != 0, s); }
void svrt_eqbr(u32 w, u64 v, u32 s, u64 k) { if (!s) return; u32 e = mkEq(norm(s), mkc(w, (i64)k)); if (isC(e)) return; branch(zx((i64)v, w) == zx((i64)k, w), e); }
static const char *forkEnv = getenv("SV_FORK"); static int forkMode = forkEnv && *forkEnv == 49 ? 1 : 0;
int sv_mode(int m) { int o = forkMode; if (!forkEnv) forkMode = m; svrt_ret[0] = 0; return o; }
long sv_fork(long v) { if (svrt_args[0]) concNode(svrt_args[0]); svrt_ret[0] = 0; return v; }
double sv_forkd(double v) { if (svrt_args[0]) concNode(svrt_args[0]); svrt_ret[0] = 0; return v; }
u32 svrt_seli(u32 w, u32 c, u32 sc, u64 t, u32 st, u64 f, u32 sf) {
  if (!sc) return c ? st : sf;
  sc = norm(sc); if (isC(sc)) return c ? st : sf;
  if (forkMode && w > 1 && !(!st && !sf && t == f)) { branch(c, sc); return c ? st : sf; }
  u32 x = ic(w, t, st), y = ic(w, f, sf);
  if (N[x].op == BITS || N[y].op == BITS) { if (x == y) return x; branch(c, sc); return c ? st : sf; }
  return fin(mkIte(sc, x, y));
}
u32 svrt_seld(u32 c, u32 sc, double t, u32 st, double f, u32 sf) {
  if (!sc) return c ? st : sf;
  sc = norm(sc); if (isC(sc)) return c ? st : sf;
  if (!st && !sf && t == f) return 0;
  if (forkMode) { branch(c, sc); return c ? st : sf; }
  bool ok = true; u32 x = dc(t, st, ok), y = dc(f, sf, ok);
  if (!ok) { if (!st && !sf && memcmp(&t, &f, 8) == 0) return 0; ST.forksel++; branch(c, sc); return c ? st : sf; }
  return fin(mkIte(sc, x, y));
}
// merged models of pair<double,bool> operations; arguments are memory
struct DB { double first; bool second; };
static u32 ldD(const DB *p) { return svrt_load((void *)&p->first, 8, 0); }
static u32 ldB(const DB *p) { u32 s = svrt_load((void *)&p->second, 1, 8); return s ? fin(mkTrunc(s, 1)) : 0; }
static u32 cb1(bool v, u32 s) { return s ? norm(s) : mkc(1, v); }
static u32 dcmp(u32 pred, double a, u32 sa, double b, u32 sb, bool conc) { u32 r = svrt_fcmp(pred, a, sa, b, sb); return r ? r : mkc(1, conc); }
static u32 pairLt(const DB *a, const DB *b) { // (a<b)
  u32 fa = ldD(a), fb = ldD(b), ba = ldB(a), bb = ldB(b);
  // values from fcmp folding must reflect the folded truth: recompute concretely
  u32 l = dcmp(4, a->first, fa, b->first, fb, a->first < b->first);
  u32 g = dcmp(4, b->first, fb, a->first, fa, b->first < a->first);
  u32 s = mkBool2(AND, mkNot(cb1(a->second, ba)), cb1(b->second, bb));
  return mkBool2(OR, l, mkBool2(AND, mkNot(g), s));
}
static u32 pairEq(const DB *a, const DB *b) {
  u32 fa = ldD(a), fb = ldD(b), ba = ldB(a), bb = ldB(b);
  u32 e = dcmp(1, a->first, fa, b->first, fb, a->first == b->first);
  return mkBool2(AND, e, mkNot(mkBool2(XOR, cb1(a->second, ba), cb1(b->second, bb))));
}
static bool retB(u32 r, bool v) { svrt_ret[0] = fin(norm(r)); return v; }
bool sv_model_plt(const DB *a, const DB *b) { return retB(pairLt(a, b), std::make_pair(a->first, a->second) < std::make_pair(b->first, b->second)); }
bool sv_model_pgt(const DB *a, const DB *b) { return sv_model_plt(b, a); }
bool sv_model_ple(const DB *a, const DB *b) { bool v = std::make_pair(a->first, a->second) <= std::make_pair(b->first, b->second); return retB(mkNot(pairLt(b, a)), v); }
bool sv_model_pge(const DB *a, const DB *b) { return sv_model_ple(b, a); }
bool sv_model_peq(const DB *a, const DB *b) { return retB(pairEq(a, b), a->first == b->first && a->second == b->second); }
bool sv_model_pne(const DB *a, const DB *b) { return retB(mkNot(pairEq(a, b)), !(a->first == b->first && a->second == b->second)); }
static const DB *pairSel(u32 c, bool cv, const DB *t, const DB *f) {
  c = norm(c);
  if (isC(c) || t == f) return cv ? t : f;
  if (forkMode) { branch(cv, c); return cv ? t : f; }
  u32 dt = ldD(t), df = ldD(f), bt = ldB(t), bf = ldB(f);
  u32 d = 0; 
  if (!(dt == 0 && df == 0 && t->first == f->first)) {
    bool ok = true; u32 x = dc(t->first, dt, ok), y = dc(f->first, df, ok);
    if (!ok) { ST.forksel++; branch(cv, c); return cv ? t : f; }
    d = mkIte(c, x, y);
  }
  u32 b = mkIteB(c, cb1(t->second, bt), cb1(f->second, bf));
  DB *r = (DB *)malloc(sizeof(DB)); svrt_clear(r, sizeof(DB)); memset(r, 0, sizeof(DB)); *r = cv ? *t : *f;
  if (d && !isC(d)) svrt_store(&r->first, 8, 0, d);
  b = norm(b); if (!isC(b)) { u32 z = mkZext(b, 8); svrt_store(&r->second, 1, 0, z); }
  return r;
}
const DB *sv_model_pmin(const DB *a, const DB *b) { bool v = std::make_pair(b->first, b->second) < std::make_pair(a->first, a->second); return pairSel(pairLt(b, a), v, b, a); }
const DB *sv_model_pmax(const DB *a, const DB *b) { bool v = std::make_pair(a->first, a->second) < std::make_pair(b->first, b->second); return pairSel(pairLt(a, b), v, b, a); }

int sv_memcmp(const void *a, const void *b, size_t n) {
  for (int i = 0; i < 3; i++) if (svrt_args[i]) concNode(svrt_args[i]);
  const u8 *x = (const u8 *)a, *y = (const u8 *)b; svrt_ret[0] = 0;
  for (size_t i = 0; i < n; i++) {
    u32 sa = svrt_load((void *)(x + i), 1, 8), sb = svrt_load((void *)(y + i), 1, 8);
    if (sa | sb) branch(x[i] == y[i], mkEq(ic(8, x[i], sa), ic(8, y[i], sb)));
    if (x[i] != y[i]) { if (sa | sb) branch(x[i] < y[i], mkUlt(ic(8, x[i], sa), ic(8, y[i], sb), false)); svrt_ret[0] = 0; return x[i] < y[i] ? -1 : 1; }
  }
  svrt_ret[0] = 0; return 0;
}
void *sv_memchr(const void *a, int c, size_t n) {
  for (int i = 0; i < 3; i++) if (svrt_args[i]) concNode(svrt_args[i]);
  const u8 *x = (const u8 *)a;
  for (size_t i = 0; i < n; i++) { u32 s = svrt_load((void *)(x + i), 1, 8); if (s) branch(x[i] == (u8)c, mkEq(s, mkc(8, c))); if (x[i] == (u8)c) return (void *)(x + i); }
  return nullptr;
}
size_t sv_strlen(const char *a) { svrt_concmem((void *)a, strlen(a) + 1); svrt_ret[0] = 0; return strlen(a); }
size_t sv_hash_bytes(const void *, size_t, size_t) { svrt_ret[0] = 0; return 0; }

// ---------------- harness API
static u32 newVar(const char *name, int lo, int hi, int sc, i64 &val) {
  std::string nm = name; // unique by occurrence
  int k = 0; for (auto &v : vars) if (v.name == nm || v.name.rfind(nm + "#", 0) == 0) k++;
  if (k) nm += "#" + std::to_string(k);
  auto it = model.find(nm); i64 v = it == model.end() ? std::min<i64>(std::max<i64>(lo, 0), hi) : it->second;
  if (v < lo || v > hi) v = lo;
  Node n{VAR, (u8)(sc < 0 ? 32 : KD), (int8_t)(sc < 0 ? 0 : sc), (u32)vars.size(), 0, 0, 0, lo, hi, v};
  u32 id = lo == hi ? 0 : intern(n);
  vars.push_back({nm, lo, hi, id, v, sc}); val = v; return id;
}
int sv_choose(const char *name, int n) { i64 v; u32 s = newVar(name, 0, n - 1, -1, v); if (s) concNode(s); svrt_ret[0] = 0; return (int)v; }
int sv_int(const char *name, int lo, int hi) { i64 v; u32 s = newVar(name, lo, hi, -1, v); svrt_ret[0] = s; return (int)v; }
double sv_real_(const char *name, int lo, int hi, int sc) { i64 v; u32 s = newVar(name, lo << sc, hi << sc, sc, v); svrt_ret[0] = s; return std::ldexp((double)v, -sc); }
void sv_assume(bool c) {
  u32 s = svrt_args[0]; if (s) { s = norm(s); if (N[s].kind != 1) s = mkTrunc(s, 1); branch(c, s); }
  if (!c) finish("PRUNED", "");
}
void sv_assert(bool c, const char *what) {
  u32 s = svrt_args[0]; ST.asserts++; 
  digest = (digest ^ (c ? 3 : 5)) * 1099511628211ULL; for (const char *p = what; *p; p++) digest = (digest ^ (u8)*p) * 1099511628211ULL;
  reached[std::string("A:") + what]++;
  if (s) { s = norm(s); if (N[s].kind != 1) s = mkTrunc(s, 1); }
  if (s && !isC(s)) {
    int li = -1; for (size_t i = 0; i < labels.size(); i++) if (labels[i] == what) li = i; if (li < 0) { li = labels.size(); labels.push_back(what); }
    if (!knownBool.count(s)) { path.push_back({s, c, 1, li}); learn(s, c); }
  }
  if (!c) finish("VIOLATION", what);
}
void sv_reach(const char *l) { reached[std::string("R:") + l]++; }
void sv_obs(long v) { u32 s = svrt_args[0]; if (s) concNode(s); digest = (digest ^ (u64)v) * 1099511628211ULL; }
void sv_reject(const char *why) { finish("REJECT", why); }
bool sv_symbolic() { svrt_ret[0] = 0; return true; }

// ---------------- ways in which a path may end
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) noexcept {
  if (!active) { fprintf(stderr, "assert outside harness: %s\n", e); _exit(97); }
  const char *b = strrchr(file, '/'); finish("CRASH", std::string("assert ") + e + " at " + (b ? b + 1 : file) + ":" + std::to_string(line) + " in " + (fn ? fn : "")); }
void abort(void) { if (!active) _exit(98); finish("CRASH", "abort()"); }
}
static void onSig(int sg) {
  if (!active) _exit(99);
  if (sg == SIGALRM || sg == SIGVTALRM) { finish("TIMEOUT", "path did not terminate in time"); }
  finish("CRASH", std::string("signal ") + std::to_string(sg));
}

// ------------------------------------------------------------------ solver
static Z3_context Z; static Z3_solver S; static std::vector<Z3_ast> zt; static std::vector<std::string> dummy;
static unsigned queryTimeoutMs = 20000;
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static unsigned wOf(const Node &n) { return bitsFor(n.lo, n.hi); }
static unsigned zw(Z3_ast t) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, t)); }
static Z3_ast toW(Z3_ast t, unsigned w) { unsigned k = zw(t); if (k == w) return t; if (k < w) return Z3_mk_sign_ext(Z, w - k, t); return Z3_mk_extract(Z, w - 1, 0, t); }
static Z3_ast tr(u32 id);
static Z3_ast trD(u32 id, int sc) { Z3_ast t = tr(id); int k = sc - N[id].sc; if (k > 0) t = Z3_mk_concat(Z, t, Z3_mk_int64(Z, 0, bvs(k))); return t; }
// Alternative translation to linear integer arithmetic: exact because every node's value lies in [lo, hi] without wrapping.
static bool lia = true; struct NoLia {};
static Z3_ast trL(u32 id) {
  const Node n = N[id]; Z3_sort I = Z3_mk_int_sort(Z);
  auto cst = [&](i64 v) { return Z3_mk_int64(Z, v, I); };
  auto pw = [&](int k) { return cst(1LL << k); };
  auto T = [&](u32 x) { return tr(x); };
  auto TD = [&](u32 x, int sc) { Z3_ast t = tr(x); int k = sc - N[x].sc; if (k > 0) { Z3_ast a[2] = {pw(k), t}; t = Z3_mk_mul(Z, 2, a); } return t; };
  auto bad = [&]() -> Z3_ast { if (getenv("SV_TRACE")) fprintf(stderr, "lia: op %d kind %d [%lld %lld] (%d [%lld %lld], %d [%lld %lld])\n", n.op, n.kind, (long long)n.lo, (long long)n.hi, N[n.a].op, (long long)N[n.a].lo, (long long)N[n.a].hi, N[n.b].op, (long long)N[n.b].lo, (long long)N[n.b].hi); throw NoLia(); };
  if (n.kind == 1) {
    switch (n.op) {
    case CONST: return n.cv ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case NOT: return Z3_mk_not(Z, T(n.a));
    case AND: case OR: case XOR: { Z3_ast a[2] = {T(n.a), T(n.b)}; return n.op == AND ? Z3_mk_and(Z, 2, a) : n.op == OR ? Z3_mk_or(Z, 2, a) : Z3_mk_xor(Z, a[0], a[1]); }
    case ITE: return Z3_mk_ite(Z, T(n.a), T(n.b), T(n.c));
    case EQ: return Z3_mk_eq(Z, T(n.a), T(n.b));
    case SLT: return Z3_mk_lt(Z, T(n.a), T(n.b));
    case SLE: return Z3_mk_le(Z, T(n.a), T(n.b));
    case ULT: if (N[n.a].lo >= 0 && N[n.b].lo >= 0) return Z3_mk_lt(Z, T(n.a), T(n.b)); return bad();
    case DLT: case DLE: case DEQ: { int sc = std::max(N[n.a].sc, N[n.b].sc); Z3_ast a = TD(n.a, sc), b = TD(n.b, sc); return n.op == DEQ ? Z3_mk_eq(Z, a, b) : n.op == DLT ? Z3_mk_lt(Z, a, b) : Z3_mk_le(Z, a, b); }
    case TRUNC: { if (N[n.a].lo >= 0 && N[n.a].hi <= 1) return Z3_mk_eq(Z, T(n.a), cst(1)); return Z3_mk_eq(Z, Z3_mk_mod(Z, T(n.a), cst(2)), cst(1)); }
    default: return bad();
    }
  }
  auto num = [&](u32 x) { Z3_ast t = tr(x); return N[x].kind == 1 ? Z3_mk_ite(Z, t, cst(1), cst(0)) : t; };
  auto wrapS = [&](Z3_ast t, int w) { Z3_ast h = cst(1LL << (w - 1)); Z3_ast a[2] = {t, h}; Z3_ast m[2] = {Z3_mk_mod(Z, Z3_mk_add(Z, 2, a), pw(w)), h}; return Z3_mk_sub(Z, 2, m); };
  switch (n.op) {
  case CONST: return cst(n.cv);
  case VAR: return Z3_mk_const(Z, Z3_mk_int_symbol(Z, n.a), I);
  case ADD: case DADD: { Z3_ast a[2] = {TD(n.a, n.sc), TD(n.b, n.sc)}; return Z3_mk_add(Z, 2, a); }
  case SUB: case DSUB: { Z3_ast a[2] = {TD(n.a, n.sc), TD(n.b, n.sc)}; return Z3_mk_sub(Z, 2, a); }
  case MUL: { if (!isC(n.a) && !isC(n.b)) return bad(); Z3_ast a[2] = {T(n.a), T(n.b)}; return Z3_mk_mul(Z, 2, a); }
  case DMULC: { Z3_ast a[2] = {cst(n.imm), T(n.a)}; return n.imm == 1 ? T(n.a) : Z3_mk_mul(Z, 2, a); }
  case DFLOOR: return Z3_mk_div(Z, T(n.a), pw(N[n.a].sc));
  case ITE: return Z3_mk_ite(Z, T(n.a), n.kind == KD ? TD(n.b, n.sc) : T(n.b), n.kind == KD ? TD(n.c, n.sc) : T(n.c));
  case ZEXT: { Z3_ast t = num(n.a); if (N[n.a].kind == 1 || N[n.a].lo >= 0) return t; if (N[n.a].kind > 62) return bad(); Z3_ast a[2] = {t, pw(N[n.a].kind)}; return Z3_mk_ite(Z, Z3_mk_lt(Z, t, cst(0)), Z3_mk_add(Z, 2, a), t); }
  case SEXT: if (N[n.a].kind == 1) return bad(); return T(n.a);
  case SITOD: case DTOSI: return num(n.a);
  case TRUNC: if (N[n.a].lo >= smin(n.kind) && N[n.a].hi <= smax(n.kind)) return T(n.a); if (n.kind > 62) return bad(); return wrapS(T(n.a), n.kind);
  case CONCAT: { int l = N[n.b].kind; if (l == 1 || N[n.a].kind == 1 || l > 31 || N[n.a].kind > 31) return bad(); Z3_ast m[2] = {pw(l), T(n.a)}; Z3_ast a[2] = {Z3_mk_mul(Z, 2, m), Z3_mk_mod(Z, T(n.b), pw(l))}; return Z3_mk_add(Z, 2, a); }
  case ASHR: if (isC(n.b)) return Z3_mk_div(Z, T(n.a), pw(N[n.b].cv)); return bad();
  case LSHR: { if (!isC(n.b)) return bad(); int k = (int)N[n.b].cv; if (N[n.a].lo >= 0) return k > 61 ? cst(0) : Z3_mk_div(Z, T(n.a), pw(k));
    if (k < 1 || n.kind - k > 62 || k > 63) return bad(); Z3_ast q = k > 61 ? Z3_mk_ite(Z, Z3_mk_lt(Z, T(n.a), cst(0)), cst(-1), cst(0)) : Z3_mk_div(Z, T(n.a), pw(k)); if (k > 61 && (N[n.a].lo < -(1LL << 60) || N[n.a].hi > (1LL << 60))) return bad();
    Z3_ast a[2] = {q, Z3_mk_ite(Z, Z3_mk_lt(Z, T(n.a), cst(0)), pw(n.kind - k), cst(0))}; return Z3_mk_add(Z, 2, a); }
  case UDIV: case SDIV: if (isC(n.b) && N[n.b].cv > 0 && N[n.a].lo >= 0) return Z3_mk_div(Z, T(n.a), T(n.b)); return bad();
  case UREM: case SREM: if (isC(n.b) && N[n.b].cv > 0 && N[n.a].lo >= 0) return Z3_mk_mod(Z, T(n.a), T(n.b)); return bad();
  case SHL: { if (!isC(n.b) || n.kind > 62 || N[n.b].cv > 30) return bad(); Z3_ast m[2] = {pw(N[n.b].cv), T(n.a)}; return wrapS(Z3_mk_mul(Z, 2, m), n.kind); }
  case AND: case OR: case XOR: {
    u32 x = n.a, y = n.b; auto small = [&](u32 k) { return N[k].lo >= 0 && N[k].hi <= 1; }; if (small(x) && !small(y)) std::swap(x, y); if (isC(x)) std::swap(x, y);
    auto m2 = [&](u32 k) { return small(k) ? T(k) : Z3_mk_mod(Z, T(k), cst(2)); };
    if (small(y)) {
      Z3_ast b1 = Z3_mk_eq(Z, T(y), cst(1)), o = m2(x), z0 = Z3_mk_eq(Z, o, cst(0)), d;
      if (n.op == AND) return Z3_mk_ite(Z, b1, o, cst(0));
      if (n.op == OR) d = Z3_mk_ite(Z, b1, Z3_mk_ite(Z, z0, cst(1), cst(0)), cst(0)); else d = Z3_mk_ite(Z, b1, Z3_mk_ite(Z, z0, cst(1), cst(-1)), cst(0));
      Z3_ast a[2] = {T(x), d}; return Z3_mk_add(Z, 2, a);
    }
    if (n.op == AND && isC(y)) { i64 k = N[y].cv; for (int i = 1; i < 62; i++) { if (k == (1LL << i) - 1) return Z3_mk_mod(Z, T(x), pw(i)); if (k == -(1LL << i)) { Z3_ast a[2] = {T(x), Z3_mk_mod(Z, T(x), pw(i))}; return Z3_mk_sub(Z, 2, a); } } }
    if (n.op == XOR && isC(y) && N[y].cv == -1) { Z3_ast a[2] = {cst(-1), T(x)}; return Z3_mk_sub(Z, 2, a); }
    { int nl = 0; std::function<bool(u32)> cnt = [&](u32 k) { if (isC(k)) return ++nl <= 16; return N[k].op == ITE && cnt(N[k].b) && cnt(N[k].c); };
      auto leaves = [&](u32 k) { nl = 0; return cnt(k); };
      if (leaves(x) && leaves(y)) {
        std::function<Z3_ast(u32, u32)> go = [&](u32 a, u32 b) -> Z3_ast {
          if (!isC(a)) return Z3_mk_ite(Z, T(N[a].a), go(N[a].b, b), go(N[a].c, b));
          if (!isC(b)) return Z3_mk_ite(Z, T(N[b].a), go(a, N[b].b), go(a, N[b].c));
          i64 u = N[a].cv, v = N[b].cv; return cst(sx(n.op == AND ? u & v : n.op == OR ? u | v : u ^ v, n.kind)); };
        return go(x, y); } }
    return bad(); }
  default: return bad();
  }
}
static Z3_ast tr1(u32 id) {
  if (lia) return trL(id);
  const Node n = N[id];
  auto cst = [&](i64 v, unsigned w) { return Z3_mk_int64(Z, v, bvs(w)); };
  if (n.kind == 1) {
    switch (n.op) {
    case CONST: return n.cv ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case NOT: return Z3_mk_not(Z, tr(n.a));
    case AND: case OR: case XOR: { Z3_ast a[2] = {tr(n.a), tr(n.b)}; return n.op == AND ? Z3_mk_and(Z, 2, a) : n.op == OR ? Z3_mk_or(Z, 2, a) : Z3_mk_xor(Z, a[0], a[1]); }
    case ITE: return Z3_mk_ite(Z, tr(n.a), tr(n.b), tr(n.c));
    case EQ: case SLT: case SLE: { Z3_ast a = tr(n.a), b = tr(n.b); unsigned w = std::max(zw(a), zw(b)); a = toW(a, w); b = toW(b, w); return n.op == EQ ? Z3_mk_eq(Z, a, b) : n.op == SLT ? Z3_mk_bvslt(Z, a, b) : Z3_mk_bvsle(Z, a, b); }
    case ULT: { unsigned w = N[n.a].kind; return Z3_mk_bvult(Z, toW(tr(n.a), w), toW(tr(n.b), w)); }
    case DLT: case DLE: case DEQ: { int sc = std::max(N[n.a].sc, N[n.b].sc); Z3_ast a = trD(n.a, sc), b = trD(n.b, sc); unsigned w = std::max(zw(a), zw(b)); a = toW(a, w); b = toW(b, w);
      return n.op == DEQ ? Z3_mk_eq(Z, a, b) : n.op == DLT ? Z3_mk_bvslt(Z, a, b) : Z3_mk_bvsle(Z, a, b); }
    case TRUNC: return Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, tr(n.a)), cst(1, 1));
    default: fprintf(stderr, "tr: bool op %d\n", n.op); _exit(96);
    }
  }
  unsigned w = wOf(n);
  switch (n.op) {
  case CONST: return cst(n.cv, w);
  case VAR: return Z3_mk_const(Z, Z3_mk_int_symbol(Z, n.a), bvs(w));
  case ADD: case SUB: case MUL: { Z3_ast a = toW(tr(n.a), w), b = toW(tr(n.b), w); return n.op == ADD ? Z3_mk_bvadd(Z, a, b) : n.op == SUB ? Z3_mk_bvsub(Z, a, b) : Z3_mk_bvmul(Z, a, b); }
  case AND: case OR: case XOR: { Z3_ast a = tr(n.a), b = tr(n.b); unsigned m = std::max(std::max(zw(a), zw(b)), w); a = toW(a, m); b = toW(b, m); Z3_ast r = n.op == AND ? Z3_mk_bvand(Z, a, b) : n.op == OR ? Z3_mk_bvor(Z, a, b) : Z3_mk_bvxor(Z, a, b); return toW(r, w); }
  case UDIV: case UREM: case LSHR: { bool nn = N[n.a].lo >= 0 && N[n.b].lo >= 0; Z3_ast a = tr(n.a), b = tr(n.b); unsigned m = nn ? std::max(std::max(zw(a), zw(b)), w) : n.kind; m = std::max(m, w); a = toW(a, m); b = toW(b, m);
    Z3_ast r = n.op == UDIV ? Z3_mk_bvudiv(Z, a, b) : n.op == UREM ? Z3_mk_bvurem(Z, a, b) : Z3_mk_bvlshr(Z, a, b); return toW(r, w); }
  case SDIV: case SREM: { Z3_ast a = tr(n.a), b = tr(n.b); unsigned m = std::max(std::max(zw(a), zw(b)), w) + 1; a = toW(a, m); b = toW(b, m); Z3_ast r = n.op == SDIV ? Z3_mk_bvsdiv(Z, a, b) : Z3_mk_bvsrem(Z, a, b); return toW(r, w); }
  case ASHR: { Z3_ast a = tr(n.a); unsigned k = std::min<i64>(N[n.b].cv, zw(a) - 1); if (k) a = Z3_mk_extract(Z, zw(a) - 1, k, a); return toW(a, w); }
  case SHL: { Z3_ast a = toW(tr(n.a), n.kind); return toW(Z3_mk_bvshl(Z, a, cst(N[n.b].cv, n.kind)), w); }
  case ITE: { if (n.kind == KD) { return Z3_mk_ite(Z, tr(n.a), toW(trD(n.b, n.sc), w), toW(trD(n.c, n.sc), w)); } return Z3_mk_ite(Z, tr(n.a), toW(tr(n.b), w), toW(tr(n.c), w)); }
  case ZEXT: { if (N[n.a].lo >= 0) return toW(tr(n.a), w); Z3_ast a = toW(tr(n.a), N[n.a].kind); a = Z3_mk_zero_ext(Z, 1, a); return toW(a, w); }
  case SEXT: return toW(tr(n.a), w);
  case TRUNC: { if (N[n.a].lo == n.lo && N[n.a].hi == n.hi) return toW(tr(n.a), w); return toW(toW(tr(n.a), n.kind), w); }
  case CONCAT: return toW(Z3_mk_concat(Z, toW(tr(n.a), N[n.a].kind), toW(tr(n.b), N[n.b].kind)), w);
  case SITOD: case DTOSI: return toW(tr(n.a), w);
  case DADD: case DSUB: { Z3_ast a = toW(trD(n.a, n.sc), w), b = toW(trD(n.b, n.sc), w); return n.op == DADD ? Z3_mk_bvadd(Z, a, b) : Z3_mk_bvsub(Z, a, b); }
  case DMULC: { // node value = a.value * imm, scale already accounted
    Z3_ast a = toW(tr(n.a), w); return n.imm == 1 ? a : Z3_mk_bvmul(Z, a, cst(n.imm, w)); }
  case DFLOOR: { Z3_ast a = tr(n.a); unsigned k = std::min<unsigned>(N[n.a].sc, zw(a) - 1); return toW(Z3_mk_extract(Z, zw(a) - 1, k, a), w); }
  default: fprintf(stderr, "tr: op %d\n", n.op); _exit(96);
  }
}
static Z3_ast tr(u32 id) {
  if (zt.size() <= id) zt.resize(N.size(), nullptr);
  if (zt[id]) return zt[id];
  // iterative on deep chains
  std::vector<u32> st{id};
  while (!st.empty()) {
    u32 x = st.back(); if (zt[x]) { st.pop_back(); continue; }
    const Node &n = N[x]; bool ready = true;
    auto need = [&](u32 y) { if (!zt[y]) { st.push_back(y); ready = false; } };
    switch (n.op) { case CONST: case VAR: break; case NOT: case ZEXT: case SEXT: case TRUNC: case SITOD: case DTOSI: case DMULC: case DFLOOR: need(n.a); break;
    case ITE: need(n.a); need(n.b); need(n.c); break; default: need(n.a); need(n.b); }
    if (ready) { st.pop_back(); zt[x] = tr1(x); }
  }
  return zt[id];
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(95); }
static void solverInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
  const char *lg = getenv("SV_LOGIC"); if (lg && !strcmp(lg, "FD")) lia = false;
  S = lia ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD")); Z3_solver_inc_ref(Z, S);
}
static int outFd = 1; static double pathStart;
static std::string esc(const std::string &s) { std::string r; for (char c : s) r += (c == '\n' || c == '\t') ? ' ' : c; return r; }
static std::string out;
static void emit(const std::string &l) { out += l; out += '\n'; }
static void flushOut() { size_t o = 0; while (o < out.size()) { ssize_t k = write(outFd, out.data() + o, out.size() - o); if (k < 0) { if (errno == EINTR) continue; break; } o += k; } out.clear(); }
static std::string curModel() { std::string r; for (auto &v : vars) { r += v.name + "=" + std::to_string(v.val) + (v.sc >= 0 ? "/" + std::to_string(1 << v.sc) : "") + ";"; } return r; }
static int check(Z3_ast extra, std::string *mod) {
  ST.queries++; double t0 = now();
  Z3_ast as[1] = {extra}; Z3_lbool r = Z3_solver_check_assumptions(Z, S, 1, as);
  if (r == Z3_L_TRUE && mod) {
    Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
    for (size_t i = 0; i < vars.size(); i++) { auto &v = vars[i]; i64 val = v.val;
      if (v.node) { Z3_ast o; if (Z3_model_eval(Z, m, tr(v.node), true, &o)) { std::string sv = Z3_get_numeral_string(Z, o); if (lia) val = strtoll(sv.c_str(), nullptr, 10); else { unsigned w = wOf(N[v.node]); u64 u = strtoull(sv.c_str(), nullptr, 10); val = sx(u, w); } if (val < v.lo || val > v.hi) val = v.val; } }
      *mod += v.name + "=" + std::to_string(val) + (v.sc >= 0 ? "/" + std::to_string(1 << v.sc) : "") + ";"; }
    Z3_model_dec_ref(Z, m);
  }
  ST.solver += now() - t0;
  if (r == Z3_L_TRUE) ST.sat++; else if (r == Z3_L_FALSE) ST.unsat++; else ST.unknown++;
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static bool finishing = false;
[[noreturn]] static void finish(const char *ev, const std::string &msg) {
  if (finishing) _exit(94);
  finishing = true; active = false;
  struct itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr);
  double texec = now() - pathStart;
  if (getenv("SV_TRACE")) { fprintf(stderr, "finish %s (%s) texec=%.2f nodes=%zu path=%zu bound=%zu\n", ev, msg.c_str(), texec, N.size(), path.size(), bound); std::map<int,int> ops; for (auto &n : N) ops[n.op * 1000 + n.kind]++; for (auto &o : ops) fprintf(stderr, " op%d:%d", o.first, o.second); fprintf(stderr, "\n"); }
  if (lia) try { for (auto &v : vars) if (v.node) tr(v.node); for (auto &r : path) tr(r.cond); }
    catch (NoLia &) { lia = false; zt.clear(); ST.nolia++; S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD")); Z3_solver_inc_ref(Z, S); }
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), queryTimeoutMs); 
  Z3_solver_set_params(Z, S, p);
  for (auto &v : vars) if (v.node) { Z3_ast t = tr(v.node); if (lia) { Z3_solver_assert(Z, S, Z3_mk_le(Z, Z3_mk_int64(Z, v.lo, Z3_mk_int_sort(Z)), t)); Z3_solver_assert(Z, S, Z3_mk_le(Z, t, Z3_mk_int64(Z, v.hi, Z3_mk_int_sort(Z)))); continue; } unsigned w = zw(t); Z3_solver_assert(Z, S, Z3_mk_bvsle(Z, Z3_mk_int64(Z, v.lo, bvs(w)), t)); Z3_solver_assert(Z, S, Z3_mk_bvsle(Z, t, Z3_mk_int64(Z, v.hi, bvs(w)))); }
  bool inf = false; u64 ph = 7; auto hmix = [&](u64 h, u32 c, bool t) { h ^= (N[c].h << 1 | t) + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); };
  if (bound && wantHash && path.size() < bound) { mark("divergence: path ended before its prefix"); ST.mism++; }
  for (size_t i = 0; i < path.size() && !inf; i++) {
    Rec &r = path[i]; Z3_ast c = tr(r.cond); Z3_ast neg = r.taken ? Z3_mk_not(Z, c) : c;
    if (i + 1 == bound && wantHash && hmix(ph, r.cond, r.taken) != wantHash) { mark("divergence of a replayed prefix"); ST.mism++; }
    if (i >= bound) {
      std::string m; int q = 0;
      if (r.kind == 0 || (r.kind == 1 && r.taken)) q = check(neg, &m);
      if (q == 1 && r.kind == 0) emit("J\t" + std::to_string(i + 1) + "\t" + m + "\t" + std::to_string(hmix(ph, r.cond, !r.taken)));
      else if (q == 1) emit("V\t" + labels[r.label] + "\t" + m);
      else if (q == -1) emit("U\t");
    }
    Z3_solver_assert(Z, S, r.taken ? c : Z3_mk_not(Z, c)); ph = hmix(ph, r.cond, r.taken);
  }
  std::string ev2 = ev;
  if (ev2 == "VIOLATION") emit("V\t" + esc(msg) + "\t" + curModel());
  if (ev2 == "CRASH" || ev2 == "TIMEOUT") emit("C\t" + esc(ev2 + ": " + msg) + "\t" + curModel());
  for (auto &r : reached) emit("L\t" + r.first + "\t" + std::to_string(r.second));
  char b[512]; snprintf(b, sizeof b, "E\t%s\t%zu\t%lu\t%lu\t%lu\t%lu\t%.6f\t%lu\t%lu\t%lu\t%.6f\t%lu\t%d\t%lu\t%016lx\t%s\t%s", ev, path.size(), ST.queries, ST.sat, ST.unsat, ST.unknown, ST.solver, ST.nodes, ST.conc, ST.mism, texec, ST.asserts, (int)inconclusive, ST.stale, digest, esc(inconclusiveWhy.empty() ? "-" : inconclusiveWhy).c_str(), curModel().c_str());
  emit(b); if (ev2 == "REJECT") emit("Q\t" + esc(msg));
  flushOut(); _exit(0);
}

// ------------------------------------------------------------------ scheduler
struct Harness { const char *name; void (*fn)(); Harness *next; };
extern "C" { Harness *sv_harness_list = nullptr; void sv_register(Harness *h) { h->next = sv_harness_list; sv_harness_list = h; } }
struct Job { size_t bound; std::string model; u64 hash = 0; };
static void parseModel(const std::string &m) {
  model.clear(); size_t p = 0;
  while (p < m.size()) { size_t e = m.find(';', p); if (e == std::string::npos) break; std::string kv = m.substr(p, e - p); size_t q = kv.find('='); model[kv.substr(0, q)] = strtoll(kv.c_str() + q + 1, nullptr, 10); p = e + 1; }
}
static void onTerm() {
  std::string what = "uncaught exception";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception &x) { what += std::string(": ") + x.what(); } catch (...) {} }
  if (!active) { fprintf(stderr, "%s\n", what.c_str()); _exit(93); }
  finish("CRASH", what);
}
static void childRun(Harness *h, const Job &j, int fd, double pathTimeout) {
  outFd = fd; bound = j.bound; wantHash = j.hash; parseModel(j.model);
  static char alt[1 << 20]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerm);
  struct itimerval it{}; it.it_value.tv_sec = (long)pathTimeout; it.it_value.tv_usec = (long)((pathTimeout - (long)pathTimeout) * 1e6); setitimer(ITIMER_REAL, &it, nullptr);
  pathStart = now(); active = true;
  try { svrt_callee = nullptr; h->fn(); }
  catch (std::exception &e) { finish("CRASH", std::string("exception: ") + e.what()); }
  catch (...) { finish("CRASH", "exception"); }
  finish("OK", "");
}
int main(int argc, char **argv) {
  std::string hn = argc > 1 ? argv[1] : ""; double budget = argc > 2 ? atof(argv[2]) : 60; int workers = argc > 3 ? atoi(argv[3]) : 8; double ptime = argc > 4 ? atof(argv[4]) : 20; size_t maxPaths = argc > 5 ? atol(argv[5]) : 100000000;
  if (getenv("VERIF_SEED")) seed = atoi(getenv("VERIF_SEED"));
  if (hn == "--list") { for (Harness *h = sv_harness_list; h; h = h->next) printf("%s\n", h->name); return 0; }
  Harness *h = sv_harness_list; while (h && hn != h->name) h = h->next; if (!h) { fprintf(stderr, "no harness %s\n", hn.c_str()); return 2; }
  N.reserve(1 << 16); N.push_back(Node{CONST, 0, 0, 0, 0, 0, 0, 0, 0, 0}); // id 0 = concrete
  solverInit();
  if (lia) { Z3_solver_push(Z, S); Z3_ast x = Z3_mk_const(Z, Z3_mk_int_symbol(Z, 100000), Z3_mk_int_sort(Z)); Z3_ast e = Z3_mk_lt(Z, x, Z3_mk_int64(Z, 3, Z3_mk_int_sort(Z))); Z3_solver_check_assumptions(Z, S, 1, &e); Z3_solver_pop(Z, S, 1); }
  else { // warm the solver up once
    Z3_solver_push(Z, S); Z3_ast x = Z3_mk_const(Z, Z3_mk_int_symbol(Z, 100000), bvs(4)); Z3_ast e = Z3_mk_eq(Z, x, Z3_mk_int64(Z, 3, bvs(4))); Z3_solver_check_assumptions(Z, S, 1, &e); Z3_solver_pop(Z, S, 1); }
  signal(SIGPIPE, SIG_IGN);
  struct W { pid_t pid; int fd; std::string buf; double start; };
  std::vector<W> ws; std::deque<Job> q; q.push_back({0, argc > 6 ? argv[6] : ""}); if (argc > 6 && argc > 7) q[0].bound = atol(argv[7]);
  double t0 = now(); u64 paths = 0, ok = 0, pruned = 0, crash = 0, rejects = 0, timeouts = 0, bounds = 0, branches = 0, queries = 0, sat = 0, unsat = 0, unk = 0, nodes = 0, conc = 0, mism = 0, asserts = 0, incon = 0, stale = 0, lost = 0; double solver = 0, texec = 0, maxexec = 0;
  std::map<std::string, u64> reach, rej, whys; std::vector<std::string> samples; std::vector<std::pair<std::string, std::string>> viol; std::map<std::string, int> violCount; bool exhausted = true;
  u64 rnd = seed * 6364136223846793005ULL + 1442695040888963407ULL;
  auto handle = [&](const std::string &l) {
    std::vector<std::string> f; size_t p = 0; while (true) { size_t e = l.find('\t', p); if (e == std::string::npos) { f.push_back(l.substr(p)); break; } f.push_back(l.substr(p, e - p)); p = e + 1; }
    if (f[0] == "J") q.push_back({(size_t)atol(f[1].c_str()), f[2], strtoull(f[3].c_str(), nullptr, 10)});
    else if (f[0] == "V" || f[0] == "C") { std::string key = f[1]; if (violCount[f[0] + key]++ < 3) viol.push_back({f[0] + "\t" + key, f[2]}); }
    else if (f[0] == "U") { exhausted = false; }
    else if (f[0] == "L") reach[f[1]] += atol(f[2].c_str());
    else if (f[0] == "Q") rej[f[1]]++;
    else if (f[0] == "E") { paths++; const std::string &ev = f[1]; if (ev == "OK") ok++; else if (ev == "PRUNED") pruned++; else if (ev == "CRASH") crash++; else if (ev == "REJECT") rejects++; else if (ev == "TIMEOUT") timeouts++; else if (ev == "BOUND") bounds++;
      branches += atol(f[2].c_str()); queries += atol(f[3].c_str()); sat += atol(f[4].c_str()); unsat += atol(f[5].c_str()); unk += atol(f[6].c_str()); solver += atof(f[7].c_str()); nodes += atol(f[8].c_str()); conc += atol(f[9].c_str()); mism += atol(f[10].c_str());
      double te = atof(f[11].c_str()); texec += te; maxexec = std::max(maxexec, te); asserts += atol(f[12].c_str()); if (f[13] == "1") { incon++; whys[f[16]]++; } stale += atol(f[14].c_str());
      if (ev == "OK" && (samples.size() < 12 || (rnd = rnd * 6364136223846793005ULL + 1, (rnd >> 33) % (paths + 1) < 12))) { std::string s = f[15] + "\t" + f[17]; if (samples.size() < 12) samples.push_back(s); else samples[(rnd >> 40) % 12] = s; } }
  };
  while (true) {
    bool stop = now() - t0 > budget || paths + ws.size() >= maxPaths || viol.size() >= 40;
    while (!stop && !q.empty() && (int)ws.size() < workers) {
      Job j; // mix depth-first with seeded random picks so that the budget, if it is hit, is spread
      rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
      if ((rnd >> 60) < 8) { j = q.back(); q.pop_back(); } else { size_t i = (rnd >> 20) % q.size(); j = q[i]; q[i] = q.back(); q.pop_back(); }
      int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
      pid_t pid = fork(); if (pid == 0) { close(fd[0]); for (auto &w : ws) close(w.fd); childRun(h, j, fd[1], ptime); _exit(0); }
      close(fd[1]); ws.push_back({pid, fd[0], "", now()});
    }
    if (ws.empty()) { if (!q.empty()) exhausted = false; break; }
    std::vector<pollfd> pf; for (auto &w : ws) pf.push_back({w.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < pf.size();) {
      size_t wi = i; bool done = false;
      if (pf[i].revents & (POLLIN | POLLHUP | POLLERR)) { char b[65536]; ssize_t k = read(ws[wi].fd, b, sizeof b); if (k > 0) ws[wi].buf.append(b, k); else if (k == 0 || errno != EINTR) done = true; }
      if (!done && now() - ws[wi].start > ptime + std::max(60.0, budget)) { kill(ws[wi].pid, SIGKILL); }
      if (done) {
        int stt; waitpid(ws[wi].pid, &stt, 0); close(ws[wi].fd); bool complete = false;
        size_t p = 0; const std::string &b = ws[wi].buf; while (p < b.size()) { size_t e = b.find('\n', p); if (e == std::string::npos) break; std::string l = b.substr(p, e - p); if (l[0] == 'E') complete = true; handle(l); p = e + 1; }
        if (!complete) { lost++; exhausted = false; fprintf(stderr, "path lost, status %x\n", stt); }
        ws.erase(ws.begin() + wi); pf.erase(pf.begin() + i);
      } else i++;
    }
  }
  if (incon || mism || timeouts || bounds) exhausted = false;
  printf("RESULT\t%s\n", h->name);
  printf("exhausted\t%d\npaths\t%lu\nok\t%lu\npruned\t%lu\ncrash\t%lu\nrejected\t%lu\ntimeouts\t%lu\nbounded\t%lu\nlost\t%lu\npending\t%zu\nbranches\t%lu\nqueries\t%lu\nsat\t%lu\nunsat\t%lu\nunknown\t%lu\nsolver_s\t%.3f\nexec_s\t%.3f\nmaxexec_s\t%.3f\nnodes\t%lu\nconcretised\t%lu\nmismatch\t%lu\nasserts\t%lu\ninconclusive\t%lu\nstale\t%lu\nwall_s\t%.3f\n",
         (int)exhausted, paths, ok, pruned, crash, rejects, timeouts, bounds, lost, q.size(), branches, queries, sat, unsat, unk, solver, texec, maxexec, nodes, conc, mism, asserts, incon, stale, now() - t0);
  for (auto &r : reach) printf("REACH\t%s\t%lu\n", r.first.c_str(), r.second);
  for (auto &r : rej) printf("REJ\t%s\t%lu\n", r.first.c_str(), r.second);
  for (auto &r : whys) printf("WHY\t%s\t%lu\n", r.first.c_str(), r.second);
  for (auto &s : samples) printf("SAMPLE\t%s\n", s.c_str());
  for (auto &v : viol) printf("VIOL\t%s\t%s\n", v.first.c_str(), v.second.c_str());
  printf("END\n"); return 0;
}
