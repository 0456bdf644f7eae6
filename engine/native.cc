// Concrete replay: runs a harness natively (g++ build, no instrumentation) on given input values.
//   native HARNESS TIMEOUT_S < models   (one "name=value;..." per line)
// prints one line per model: DIGEST <tab> EVENT <tab> message
#include "sv.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <csignal>
#include <exception>
#include <unistd.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
static std::map<std::string, long> model;
static std::map<std::string, int> cnt;
static uint64_t digest = 1469598103934665603ULL;
static int fd = 1;
static bool stopped = false;
static std::string inputs;
[[noreturn]] static void finish(const char *ev, const std::string &msg) {
  if (stopped) _exit(9);
  stopped = true;
  char b[64]; snprintf(b, sizeof b, "%016lx\t%s\t", (unsigned long)digest, ev);
  std::string s = b + msg; for (auto &c : s) if (c == '\n') c = ' ';
  s += "\n"; if (write(fd, s.data(), s.size())) {} _exit(0);
}
static long val(const char *name, long lo, long hi) {
  std::string nm = name; int k = cnt[nm]++; if (k) nm += "#" + std::to_string(k);
  auto it = model.find(nm); long v = it == model.end() ? std::min(std::max(lo, 0L), hi) : it->second;
  if (v < lo || v > hi) v = lo; return v;
}
extern "C" {
int sv_int(const char *n, int lo, int hi) { return (int)val(n, lo, hi); }
int sv_choose(const char *n, int k) { return (int)val(n, 0, k - 1); }
double sv_real_(const char *n, int lo, int hi, int sc) { return std::ldexp((double)val(n, (long)lo << sc, (long)hi << sc), -sc); }
void sv_assume(bool c) { if (!c) finish("PRUNED", ""); }
void sv_assert(bool c, const char *what) {
  digest = (digest ^ (c ? 3 : 5)) * 1099511628211ULL; for (const char *p = what; *p; p++) digest = (digest ^ (uint8_t)*p) * 1099511628211ULL;
  if (!c) finish("VIOLATION", what);
}
void sv_reach(const char *) {}
void sv_obs(long v) { digest = (digest ^ (uint64_t)v) * 1099511628211ULL; }
void sv_reject(const char *why) { finish("REJECT", why); }
int sv_mode(int) { return 0; }
long sv_fork(long v) { return v; }
double sv_forkd(double v) { return v; }
bool sv_symbolic() { return false; }
static Harness *head;
void sv_register(Harness *h) { h->next = head; head = h; }
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) noexcept {
  const char *b = strrchr(file, '/'); finish("CRASH", std::string("assert ") + e + " at " + (b ? b + 1 : file) + ":" + std::to_string(line) + " in " + (fn ? fn : "")); }
void abort(void) noexcept { finish("CRASH", "abort()"); }
}
static void onSig(int s) { if (s == SIGALRM) finish("TIMEOUT", "did not terminate"); finish("CRASH", "signal " + std::to_string(s)); }
static void onTerm() { finish("CRASH", "uncaught exception"); }
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--list")) { for (Harness *h = head; h; h = h->next) puts(h->name); return 0; }
  if (argc < 2) return 2;
  Harness *h = head; while (h && strcmp(h->name, argv[1])) h = h->next; if (!h) return 2;
  double to = argc > 2 ? atof(argv[2]) : 30;
  int par = argc > 3 ? atoi(argv[3]) : 8;
  std::vector<std::string> in, outv; std::string line; while (std::getline(std::cin, line)) in.push_back(line);
  outv.resize(in.size());
  struct W { pid_t p; int fd; size_t i; }; std::vector<W> ws; size_t next = 0;
  while (next < in.size() || !ws.empty()) {
    while (next < in.size() && (int)ws.size() < par) {
      int p[2]; if (pipe(p)) return 2; fflush(stdout); pid_t pid = fork();
      if (!pid) {
        close(p[0]); fd = p[1]; std::string m = in[next]; size_t q = 0;
        while (q < m.size()) { size_t e = m.find(';', q); if (e == std::string::npos) break; std::string kv = m.substr(q, e - q); size_t x = kv.find('='); if (x != std::string::npos) model[kv.substr(0, x)] = strtol(kv.c_str() + x + 1, nullptr, 10); q = e + 1; }
        static char alt[1 << 18]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGABRT}) sigaction(s, &sa, nullptr);
        std::set_terminate(onTerm);
        struct rlimit rl{4000000000UL, 4000000000UL}; setrlimit(RLIMIT_AS, &rl);
        struct itimerval it{}; it.it_value.tv_sec = (long)to; it.it_value.tv_usec = (long)((to - (long)to) * 1e6); setitimer(ITIMER_REAL, &it, nullptr);
        try { h->fn(); } catch (std::exception &e) { finish("CRASH", std::string("exception: ") + e.what()); } catch (...) { finish("CRASH", "exception"); }
        finish("OK", "");
      }
      close(p[1]); ws.push_back({pid, p[0], next++});
    }
    std::vector<pollfd> pf; for (auto &w : ws) pf.push_back({w.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 1000);
    for (size_t k = 0; k < pf.size();) {
      bool done = false;
      if (pf[k].revents) { char b[4096]; ssize_t n = read(ws[k].fd, b, sizeof b); if (n > 0) outv[ws[k].i].append(b, n); else done = true; }
      if (done) { close(ws[k].fd); int st; waitpid(ws[k].p, &st, 0); if (outv[ws[k].i].empty()) outv[ws[k].i] = "0\tLOST\t\n"; ws.erase(ws.begin() + k); pf.erase(pf.begin() + k); } else k++;
    }
  }
  for (auto &o : outv) fputs(o.c_str(), stdout);
}
