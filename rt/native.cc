// Native runtime for replaying a counterexample against the real compiled code.
// Values come from a text file (name kind value); ranks are processes that run one at a time.
#undef fopen
#undef fclose
#undef fgets
#undef fflush
#undef fprintf
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <omp.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SX_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define SX_ASAN 1
#endif
#ifdef SX_ASAN
extern "C" void *__asan_region_is_poisoned(void *, size_t);
#endif
struct Sh { volatile int turn, n, violated, idle; volatile int alive[16]; volatile uint64_t bump; };
static Sh *sh; static char *arena; static const uint64_t ARENA = 1ull << 30;
static int me = 0, nr = 1; static std::map<std::string, std::pair<char, std::string>> vals; static std::map<std::string, int> occ; static std::map<std::string, int64_t> flags, params;
static void bad(const char *kind, const char *msg) { fflush(stdout); dprintf(1, "REPLAY-VIOLATION rank %d %s: %s\n", me, kind, msg); sh->violated = 1; _exit(77); }
static std::string key(const char *n) { std::string s = n; if (nr > 1) s = "r" + std::to_string(me) + "." + s; int k = occ[s]++; return s + "#" + std::to_string(k); }
static uint64_t getU(const char *n) { std::string k = key(n); auto it = vals.find(k); if (it == vals.end()) return 0; return strtoull(it->second.second.c_str(), 0, 0); }
extern "C" {
uint64_t sx_u64(const char *n) { return getU(n); } uint32_t sx_u32(const char *n) { return getU(n); } uint8_t sx_u8(const char *n) { return getU(n); } bool sx_bool(const char *n) { return getU(n) & 1; }
double sx_real(const char *n) { std::string k = key(n); auto it = vals.find(k); if (it == vals.end()) return 0; const std::string &v = it->second.second; size_t p = v.find('/'); if (p != std::string::npos) return strtod(v.substr(0, p).c_str(), 0) / strtod(v.substr(p + 1).c_str(), 0); return strtod(v.c_str(), 0); }
double sx_real_in(const char *n, double lo, double hi) { double v = sx_real(n); return v < lo ? lo : v > hi ? hi : v; }
double sx_opaque(const char *n) { uint64_t u = getU(n); double d; memcpy(&d, &u, 8); return d; }
uint64_t sx_choose(uint64_t n, const char *name) { uint64_t v = getU(name); return v < n ? v : 0; }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_assume(bool c) { if (!c) { dprintf(1, "REPLAY-DIVERGED: assumption does not hold natively\n"); _exit(3); } }
static bool noAssert() { return getenv("SX_NOASSERT") != 0; }
void sx_assert(bool c, const char *m) { if (!c && !noAssert()) bad("assert", m); }
void sx_assert_near(double a, double b, double tol, const char *m) { double t = tol + 1e-9 * (1 + fabs(a) + fabs(b)); if (!(fabs(a - b) <= t) && !noAssert()) { char s[512]; snprintf(s, sizeof s, "%s (%.17g vs %.17g)", m, a, b); bad("assert", s); } }
bool sx_same(double a, double b) { return !memcmp(&a, &b, 8) || a == b; }
bool sx_same_bytes(const void *a, const void *b, uint64_t n) { return !memcmp(a, b, n); }
void sx_fail(const char *k, const char *m) { bad(k, m); }
void sx_reach(const char *t) { dprintf(1, "REACHED %s\n", t); } void sx_note(const char *t) { dprintf(1, "note: %s\n", t); } void sx_note_u(const char *t, uint64_t v) { dprintf(1, "note: %s %llu\n", t, (unsigned long long)v); }
static void pass() { if (nr == 1) return; int t = me; for (int i = 1; i <= nr; i++) { int c = (me + i) % nr; if (sh->alive[c]) { t = c; break; } } sh->turn = t; }
static void waitTurn() { int k = 0; while (sh->turn != me) { if (++k < 200) sched_yield(); else { timespec ts = {0, 20000}; nanosleep(&ts, 0); } } }
int sx_spawn(int n) { nr = n; sh->n = n; for (int i = 0; i < n; i++) sh->alive[i] = 1; sh->turn = 0; fflush(stdout); for (int i = 1; i < n; i++) { if (fork() == 0) { me = i; occ.clear(); break; } } waitTurn(); return me; }
static void leave() { if (nr > 1) { sh->alive[me] = 0; sh->idle = 0; pass(); } }
void sx_join() { if (nr == 1) return; if (me != 0) { leave(); fflush(stdout); _exit(0); } for (;;) { int l = 0; for (int i = 0; i < nr; i++) l += sh->alive[i]; if (l == 1) break; sx_yield(); } while (waitpid(-1, 0, WNOHANG) > 0) {} nr = 1; }
void sx_end() { leave(); fflush(stdout); _exit(0); }
int sx_rank() { return me; } int sx_nranks() { return nr; }
int sx_live_ranks() { int l = 0; for (int i = 0; i < nr; i++) l += sh->alive[i]; return nr == 1 ? 1 : l; }
void sx_yield() { if (++sh->idle > 20000) bad("hang", "ranks wait forever (no progress)"); if (nr == 1) return; pass(); waitTurn(); }
void sx_progress() { sh->idle = 0; }
void *sx_shared_alloc(uint64_t n) { n = (n + 63) & ~63ull; uint64_t o = __sync_fetch_and_add(&sh->bump, n); if (o + n > ARENA) { dprintf(1, "arena full\n"); _exit(3); } return arena + o; }
void sx_threads(int n) { omp_set_dynamic(0); omp_set_num_threads(n); }
bool sx_mem_live(const void *p, uint64_t n) {
#ifdef SX_ASAN
  return __asan_region_is_poisoned((void *)p, n) == 0;
#else
  return true;
#endif
}
void sx_set(const char *f, int64_t v) { flags[f] = v; } int64_t sx_get(const char *f) { return flags[f]; } int64_t sx_param(const char *n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
bool sx_is_symbolic(uint64_t) { return false; } uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_main();
#ifdef SX_ASAN
void __asan_on_error() { sh->violated = 1; }
#endif
}
static void onAbort(int) { if (flags.count("abort_ok") && flags["abort_ok"]) { sh->violated = sh->violated; leave(); _exit(0); } bad("abort", "the program aborted"); }
static void onSegv(int) { bad("memory", "segmentation fault"); }
static void onFpe(int) { bad("arith", "arithmetic exception"); }
int main(int argc, char **argv) {
  if (argc > 1) { FILE *f = fopen(argv[1], "r"); if (!f) return 3; char line[4096]; while (fgets(line, sizeof line, f)) { char n[1024], v[2048]; char k; if (sscanf(line, "%1023s %c %2047s", n, &k, v) == 3) vals[n] = {k, v}; } fclose(f); }
  for (int i = 2; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (e != std::string::npos) params[s.substr(0, e)] = atoll(s.substr(e + 1).c_str()); }
  char *m = (char *)mmap(0, ARENA + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sh = (Sh *)m; arena = m + 4096; sh->alive[0] = 1;
  setvbuf(stdout, 0, _IOLBF, 0);
  int tmo = getenv("SX_REPLAY_TIMEOUT") ? atoi(getenv("SX_REPLAY_TIMEOUT")) : 60;
  pid_t p = fork();
  if (p == 0) { setpgid(0, 0); signal(SIGABRT, onAbort);
#ifndef SX_ASAN
    signal(SIGSEGV, onSegv); signal(SIGFPE, onFpe);
#endif
    dprintf(1, "REPLAY-START\n"); try { sx_main(); } catch (...) { bad("exception", "uncaught exception"); } leave(); fflush(stdout); _exit(0); }
  int st; time_t t0 = time(0); int res = -1;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) { res = WIFEXITED(st) ? WEXITSTATUS(st) : 77; break; } if (sh->violated) { res = 77; break; } if (time(0) - t0 > tmo) { printf("REPLAY-VIOLATION hang: no end after %d s\n", tmo); res = 77; break; } timespec ts = {0, 2000000}; nanosleep(&ts, 0); }
  timespec ts = {0, 50000000}; nanosleep(&ts, 0); if (sh->violated) res = 77; kill(-p, SIGKILL); kill(p, SIGKILL);
  printf(res == 77 ? "REPLAY: violation reproduced\n" : res == 0 ? "REPLAY: no violation\n" : "REPLAY: exit %d\n", res); return res;
}
