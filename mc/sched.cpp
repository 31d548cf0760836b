// Stateless model checking of the run-time library under threads.
//
// The wrapper, the backends and the random number library are compiled with
// -fsanitize=thread but linked to *this* run time instead of libtsan: every
// access to memory that is not on the thread's own stack, every atomic
// operation and every lock is a scheduling point.  One thread runs at a time;
// all the schedules with at most P preemptions are executed, each in its own
// forked process (fresh globals, heap and thread-local storage).
#include <algorithm>
#include <atomic>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

enum { MAXT = 4, MAXDEC = 60000, MAXRES = 4096 };
struct Shared {                // parent <-> execution
  int ndec, overflow, spinning;
  int npoints;
  struct { unsigned char opt, cho; } dec[MAXDEC];
  int nres[MAXT];
  uint64_t res[MAXT][MAXRES];
  int first[MAXT], last[MAXT]; // global step at which the thread ran its first op / ended it
  int step;
};
static Shared *X;

// ---------------------------------------------------------------- scheduler
static bool g_active = false;
static int g_nt, g_bound, g_used, g_replay;
static bool g_done[MAXT], g_yielded[MAXT];
static std::atomic<int> g_cur{-1};
static __thread int me = -1;
static __thread char *stk_hi = nullptr, *stk_lo = nullptr;
static const void *g_lastaddr; static int g_same, g_run;

static void fwait(int want) {
  for (;;) {
    int c = g_cur.load(std::memory_order_acquire);
    if (c == want) return;
    syscall(SYS_futex, &g_cur, FUTEX_WAIT_PRIVATE, c, nullptr, nullptr, 0);
  }
}
static void hand(int t) {
  g_cur.store(t, std::memory_order_release);
  syscall(SYS_futex, &g_cur, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}
static int decide(int nopt) {
  int i = X->ndec;
  if (i >= MAXDEC) { X->overflow = 1; _exit(77); }
  int c = 0;
  if (i < g_replay) {
    c = X->dec[i].cho;
    if (X->dec[i].opt != nopt) _exit(78);      // not deterministic: the harness is wrong
  } else {
    X->dec[i].opt = nopt; X->dec[i].cho = 0;
  }
  X->ndec = i + 1;
  return c;
}
static void go(int t) { hand(t); fwait(me); }
// the current thread cannot (or must not) go on: someone else has to, at no cost
// (fairly: not a thread that itself gave up its turn since)
static void yield_forced() {
  int cand[MAXT], n = 0;
  g_yielded[me] = true;
  for (int k = 1; k < g_nt; k++) { int t = (me + k) % g_nt; if (!g_done[t] && !g_yielded[t]) cand[n++] = t; }
  if (!n) {
    memset(g_yielded, 0, sizeof g_yielded);
    for (int k = 1; k < g_nt; k++) { int t = (me + k) % g_nt; if (!g_done[t]) cand[n++] = t; }
  }
  if (!n) return;
  go(cand[n > 1 ? decide(n) : 0]);
}
static void point(const void *a) {
  if (!g_active || me < 0) return;
  const char *p = (const char *)a;
  if (p && p >= stk_lo && p < stk_hi) return;
  X->npoints++;
  if (a == g_lastaddr) g_same++; else { g_same = 0; g_lastaddr = a; }
  if (++g_run > 5000 || g_same > 400) {       // a thread that spins
    X->spinning++;
    if (X->spinning > 2000) _exit(76);
    g_run = g_same = 0; yield_forced(); return;
  }
  if (g_used >= g_bound) return;
  int cand[MAXT], n = 0;
  for (int k = 1; k < g_nt; k++) { int t = (me + k) % g_nt; if (!g_done[t]) cand[n++] = t; }
  if (!n) return;
  int c = decide(n + 1);
  if (c) { g_used++; g_run = g_same = 0; g_yielded[cand[c - 1]] = false; go(cand[c - 1]); }
}

extern "C" {
#define EXP __attribute__((visibility("default")))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                     \
  EXP void __tsan_read##n(void *a) { point(a); }                                                  \
  EXP void __tsan_write##n(void *a) { point(a); }                                                 \
  EXP void __tsan_volatile_read##n(void *a) { point(a); }                                         \
  EXP void __tsan_volatile_write##n(void *a) { point(a); }                                        \
  EXP void __tsan_unaligned_read##n(void *a) { point(a); }                                        \
  EXP void __tsan_unaligned_write##n(void *a) { point(a); }                                       \
  EXP void __tsan_unaligned_volatile_read##n(void *a) { point(a); }                               \
  EXP void __tsan_unaligned_volatile_write##n(void *a) { point(a); }                              \
  EXP void __tsan_read_write##n(void *a) { point(a); }                                            \
  EXP void __tsan_unaligned_read_write##n(void *a) { point(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void *a, size_t) { point(a); }
EXP void __tsan_write_range(void *a, size_t) { point(a); }
EXP void __tsan_vptr_update(void **a, void *) { point(a); }
EXP void __tsan_vptr_read(void **a) { point(a); }
EXP void *__tsan_memcpy(void *d, const void *s, size_t n) { point(s); point(d); return memcpy(d, s, n); }
EXP void *__tsan_memmove(void *d, const void *s, size_t n) { point(s); point(d); return memmove(d, s, n); }
EXP void *__tsan_memset(void *d, int c, size_t n) { point(d); return memset(d, c, n); }
#define AT(n, T)                                                                                                            \
  EXP T __tsan_atomic##n##_load(const volatile T *a, int) { point((void *)a); return __atomic_load_n(a, 5); }               \
  EXP void __tsan_atomic##n##_store(volatile T *a, T v, int) { point((void *)a); __atomic_store_n(a, v, 5); }               \
  EXP T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point((void *)a); return __atomic_exchange_n(a, v, 5); }     \
  EXP T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_add(a, v, 5); }     \
  EXP T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_sub(a, v, 5); }     \
  EXP T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_and(a, v, 5); }     \
  EXP T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_or(a, v, 5); }       \
  EXP T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_xor(a, v, 5); }     \
  EXP T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { point((void *)a); return __atomic_fetch_nand(a, v, 5); }   \
  EXP int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                  \
    point((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                                               \
  EXP int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                                    \
    point((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                                               \
  EXP T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                        \
    point((void *)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
EXP void __tsan_atomic_thread_fence(int) { point(nullptr); }
EXP void __tsan_atomic_signal_fence(int) {}
// locks: a scheduling point, and never a blocked thread that holds the token
typedef int (*lockfn)(pthread_mutex_t *);
EXP int pthread_mutex_lock(pthread_mutex_t *m) {
  static lockfn real, real_try;
  if (!real) { real_try = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); real = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); }
  if (!g_active || me < 0) return real(m);
  point(m);
  while (real_try(m)) { X->spinning++; if (X->spinning > 2000) _exit(76); yield_forced(); }
  return 0;
}
EXP int pthread_mutex_unlock(pthread_mutex_t *m) {
  static lockfn real;
  if (!real) real = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (g_active && me >= 0) point(m);
  return real(m);
}
EXP int sched_yield(void) {
  if (g_active && me >= 0) yield_forced();
  return 0;
}
// the address-to-line tool run when a delta-debug list is written
EXP int execlp(const char *, const char *, ...) __attribute__((noreturn));
int execlp(const char *, const char *a0, ...) {
  va_list ap;
  va_start(ap, a0);
  const char *last = a0, *s;
  while ((s = va_arg(ap, const char *))) last = s;
  va_end(ap);
  char b[128];
  int n = snprintf(b, sizeof b, "%s: stand-in\n", last);
  if (write(1, b, n)) {}
  _exit(0);
}
}

// ---------------------------------------------------------------- operations
typedef double d2 __attribute__((vector_size(16)));
typedef float f4 __attribute__((vector_size(16)));
static float (*w_fadd)(float, float), (*w_fsub)(float, float), (*w_fmul)(float, float), (*w_fdiv)(float, float);
static double (*w_dadd)(double, double), (*w_dsub)(double, double), (*w_dmul)(double, double), (*w_ddiv)(double, double);
static f4 (*w_4f[4])(f4, f4);
static d2 (*w_2d[4])(d2, d2);
static float (*w_ffma)(float, float, float);
static double (*w_dfma)(double, double, double);
static int (*w_dcmp)(int, double, double), (*w_fcmp)(int, float, float);
static float (*w_cast)(double);
static void (*w_user)(int, ...);
static void out(uint64_t v) { int &n = X->nres[me]; if (n < MAXRES) X->res[me][n++] = v; }
static void out(double v) { uint64_t u; memcpy(&u, &v, 8); out(u); }
static void out(float v) { uint32_t u; memcpy(&u, &v, 4); out((uint64_t)u); }

// kinds for the counts
enum { KMUL, KDIV, KADD, KSUB, KFMA, NK };
struct OpDesc { char c; const char *name; int kind, lanes; };
static const OpDesc OPS[] = {
  {'a', "fadd", KADD, 1}, {'s', "fsub", KSUB, 1}, {'m', "fmul", KMUL, 1}, {'d', "fdiv", KDIV, 1},
  {'A', "dadd", KADD, 1}, {'S', "dsub", KSUB, 1}, {'M', "dmul", KMUL, 1}, {'D', "ddiv", KDIV, 1},
  {'1', "4xfadd", KADD, 4}, {'2', "4xfsub", KSUB, 4}, {'3', "4xfmul", KMUL, 4}, {'4', "4xfdiv", KDIV, 4},
  {'5', "2xdadd", KADD, 2}, {'6', "2xdsub", KSUB, 2}, {'7', "2xdmul", KMUL, 2}, {'8', "2xddiv", KDIV, 2},
  {'f', "ffma", KFMA, 1}, {'F', "dfma", KFMA, 1}, {'u', "usercall", -1, 0}, {'U', "usercall d", -1, 0},
  {'c', "fcmp", -1, 0}, {'C', "dcmp", -1, 0}, {'k', "cast", -1, 0}};
static const OpDesc &desc(char c) {
  for (auto &o : OPS) if (o.c == c) return o;
  fprintf(stderr, "no op %c\n", c); exit(3);
}
static volatile double vd1 = 1.2345678901234567, vd2 = 1.1111111111111112, vd3 = 0.3333333333333333;
static volatile float vf1 = 1.2345679f, vf2 = 1.1111112f, vf3 = 0.33333334f;
static void doop(char c) {
  f4 fa = {vf1, vf2, vf3, vf1}, fb = {vf2, vf3, vf1, vf3};
  d2 da = {vd1, vd2}, db = {vd2, vd3};
  switch (c) {
  case 'a': out(w_fadd(vf1, vf2)); break;
  case 's': out(w_fsub(vf1, vf2)); break;
  case 'm': out(w_fmul(vf1, vf2)); break;
  case 'd': out(w_fdiv(vf1, vf2)); break;
  case 'A': out(w_dadd(vd1, vd2)); break;
  case 'S': out(w_dsub(vd1, vd2)); break;
  case 'M': out(w_dmul(vd1, vd2)); break;
  case 'D': out(w_ddiv(vd1, vd2)); break;
  case '1': case '2': case '3': case '4': { f4 r = w_4f[c - '1'](fa, fb); for (int i = 0; i < 4; i++) out(r[i]); break; }
  case '5': case '6': case '7': case '8': { d2 r = w_2d[c - '5'](da, db); for (int i = 0; i < 2; i++) out(r[i]); break; }
  case 'f': out(w_ffma(vf1, vf2, vf3)); break;
  case 'F': out(w_dfma(vd1, vd2, vd3)); break;
  case 'u': { float v = vf1; w_user(1, 0, &v, 10); out(v); break; }   // INTERFLOP_INEXACT_ID, FFLOAT
  case 'U': { double v = vd1; w_user(1, 1, &v, 10); out(v); break; }
  case 'c': out((uint64_t)w_fcmp(4, vf1, vf2)); break;
  case 'C': out((uint64_t)w_dcmp(2, vd1, vd2)); break;
  case 'k': out(w_cast(vd1)); break;
  }
}

// ---------------------------------------------------------------- one execution
static std::vector<std::string> g_prog;
static void *body(void *arg) {
  me = (int)(intptr_t)arg;
  char here;
  stk_hi = &here; stk_lo = &here - (256 << 10);
  fwait(me);
  X->first[me] = X->step++;
  for (char c : g_prog[me]) { doop(c); X->step++; }
  X->last[me] = X->step++;
  g_done[me] = true;
  memset(g_yielded, 0, sizeof g_yielded);
  int cand[MAXT], n = 0;
  for (int k = 1; k < g_nt; k++) { int t = (me + k) % g_nt; if (!g_done[t]) cand[n++] = t; }
  g_run = g_same = 0;
  hand(n ? cand[n > 1 ? decide(n) : 0] : 100);
  fwait(100);              // alive until all are done
  return nullptr;
}
// a thread alone, created and ended before the next one
static void *body_seq(void *arg) {
  me = (int)(intptr_t)arg;
  for (char c : g_prog[me]) doop(c);
  return nullptr;
}
static void run_threads(bool sequential) {
  g_nt = (int)g_prog.size();
  if (sequential) {
    for (int i = 0; i < g_nt; i++) {
      pthread_t t;
      pthread_create(&t, nullptr, body_seq, (void *)(intptr_t)i);
      pthread_join(t, nullptr);
    }
    return;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 << 10);
  pthread_t t[MAXT];
  for (int i = 0; i < g_nt; i++) pthread_create(&t[i], &at, body, (void *)(intptr_t)i);
  g_active = true;
  hand(decide(g_nt));
  for (int i = 0; i < g_nt; i++) pthread_join(t[i], nullptr);
  g_active = false;
}
static int g_err = -1;     // memfd behind stderr of the executions
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// returns the wait status; finish: the child ends with exit() (destructors, finalize)
static int execute(int bound, int replay, bool sequential, bool finish) {
  X->ndec = X->overflow = X->spinning = X->npoints = X->step = 0;
  memset(X->nres, 0, sizeof X->nres);
  memset(X->first, 0, sizeof X->first); memset(X->last, 0, sizeof X->last);
  if (ftruncate(g_err, 0)) {}
  lseek(g_err, 0, SEEK_SET);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) {
    alarm(30);
    dup2(g_err, 2);
    g_bound = bound; g_used = 0; g_replay = replay; g_run = g_same = 0;
    memset(g_done, 0, sizeof g_done); memset(g_yielded, 0, sizeof g_yielded);
    run_threads(sequential);
    if (finish) exit(0);
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) {}
  return st;
}
static std::string errtext() {
  char b[4096];
  ssize_t n = pread(g_err, b, sizeof b - 1, 0);
  return std::string(b, n > 0 ? n : 0);
}
static std::string schedule() {
  std::string s;
  int n = 0;
  for (int i = 0; i < X->ndec; i++)
    if (X->dec[i].cho) { char b[32]; snprintf(b, 32, "%s@%d:%d", n++ ? " " : "", i, X->dec[i].cho); s += b; }
  return s.empty() ? "no preemption" : s;
}

#include "sched_report.hpp"

static void wrapper(const std::string &so, const std::string &backends) {
  setenv("VFC_BACKENDS", backends.c_str(), 1);
  setenv("VFC_BACKENDS_LOGGER", "False", 1);
  setenv("VFC_BACKENDS_SILENT_LOAD", "True", 1);
  void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "HARNESS: %s\n", dlerror()); _exit(3); }
  auto sym = [&](const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "HARNESS: no %s\n", n); _exit(3); } return p; };
#define SYM(v, n) v = (decltype(v))sym(n)
  SYM(w_fadd, "_floatadd"); SYM(w_fsub, "_floatsub"); SYM(w_fmul, "_floatmul"); SYM(w_fdiv, "_floatdiv");
  SYM(w_dadd, "_doubleadd"); SYM(w_dsub, "_doublesub"); SYM(w_dmul, "_doublemul"); SYM(w_ddiv, "_doublediv");
  const char *k[4] = {"add", "sub", "mul", "div"};
  for (int i = 0; i < 4; i++) {
    w_4f[i] = (f4(*)(f4,f4))sym((std::string("_4xfloat") + k[i]).c_str());
    w_2d[i] = (d2(*)(d2,d2))sym((std::string("_2xdouble") + k[i]).c_str());
  }
  SYM(w_ffma, "_floatfma"); SYM(w_dfma, "_doublefma"); SYM(w_dcmp, "_doublecmp"); SYM(w_fcmp, "_floatcmp");
  SYM(w_cast, "_doubletofloatcast"); SYM(w_user, "interflop_call");
}

// all schedules with at most `bound` preemptions; f is called after each
static void explore(const std::string &what, int bound, bool finish, const std::function<void(int)> &f) {
  int replay = 0;
  double t0 = now();
  for (;;) {
    int st = execute(bound, replay, false, finish);
    R.states++;
    R.transitions += X->npoints;
    int c = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (c == 77 || c == 78) { fprintf(stderr, "HARNESS: %s: %s\n", what.c_str(), c == 77 ? "too many scheduling points" : "the replay diverged"); _exit(3); }
    f(st);
    R.nontrivial += std::any_of(X->dec, X->dec + X->ndec, [](auto &d) { return d.cho; });
    // next schedule
    int i = X->ndec - 1;
    while (i >= 0 && X->dec[i].cho + 1 >= X->dec[i].opt) i--;
    if (i < 0) break;
    X->dec[i].cho++;
    replay = i + 1;
    if (R.nviol > 50) break;
    if (now() - t0 > 700) { fprintf(stderr, "HARNESS: %s: out of time\n", what.c_str()); _exit(3); }
  }
}
static bool died(int st, const std::string &what) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  R.violation(what + ": the program " +
              (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hangs" : std::string("is killed by signal ") + std::to_string(WTERMSIG(st)))
               : WEXITSTATUS(st) == 76 ? "never ends (threads wait for each other)" : "exits with " + std::to_string(WEXITSTATUS(st))) +
              " under the schedule [" + schedule() + "]\n" + errtext());
  return true;
}
typedef std::vector<uint64_t> V;
static V results(int t) { return V(X->res[t], X->res[t] + X->nres[t]); }
static std::string show(const V &v) {
  std::string s;
  for (auto x : v) { char b[32]; snprintf(b, 32, "%s%lx", s.empty() ? "" : " ", x); s += b; if (s.size() > 200) { s += "..."; break; } }
  return s;
}
static std::string progs() { std::string s; for (auto &p : g_prog) { s += s.empty() ? "" : " | "; for (char c : p) { s += desc(c).name; s += ' '; } } return s; }

// the results of a thread running prog as the rank-th thread that draws, alone
static V solo(const std::string &prog, int rank, const std::string &drawing) {
  auto save = g_prog;
  g_prog.assign(rank - 1, drawing);
  g_prog.push_back(prog);
  int st = execute(0, 0, true, false);
  V r;
  if (!died(st, "sequential threads")) r = results(rank - 1);
  g_prog = save;
  return r;
}
struct Cfg { std::string backends, drawing; std::vector<std::string> prog; int bound; bool random; };

static void c08_one(const Cfg &c) {
  g_prog = c.prog;
  int n = (int)c.prog.size();
  std::string what = "VFC_BACKENDS=\"" + c.backends + "\", threads: " + progs();
  std::vector<std::vector<V>> S(n);
  for (int i = 0; i < n; i++)
    for (int r = 1; r <= n; r++) S[i].push_back(solo(c.prog[i], r, c.drawing));
  if (R.nviol) return;
  // does the program draw at all (does it take a rank)?  A thread that comes after it tells
  std::vector<bool> draws(n, false);
  int nd = 0;
  if (c.random) {
    std::string probe;
    for (int k = 0; k < 12; k++) probe += c.drawing;
    V p1 = solo(probe, 1, c.drawing), p2 = solo(probe, 2, c.drawing);
    if (p1 == p2) R.violation(what + ": the first two threads draw the same stream");
    for (int i = 0; i < n; i++) {
      V q = solo(probe, 2, c.prog[i]);
      draws[i] = q == p2;
      if (!draws[i] && q != p1) R.violation(what + ": a thread that comes after another one that ran " + c.prog[i] + " gets neither the first nor the second stream: " + show(q));
      nd += draws[i];
    }
    R.counters["threads that draw"] += nd;
  }
  // twice the same
  for (int i = 0; i < n; i++) if (solo(c.prog[i], 1, c.drawing) != S[i][0])
    R.violation(what + ": two identical runs of a thread alone differ");
  std::set<std::vector<int>> ranks;
  explore(what, c.bound, false, [&](int st) {
    if (died(st, what)) return;
    std::vector<int> q(nd), p(n, 0);
    for (int i = 0; i < nd; i++) q[i] = i;
    bool ok = false;
    do {
      for (int i = 0, k = 0; i < n; i++) p[i] = draws[i] ? q[k++] : 0;
      bool good = true;
      for (int i = 0; i < n && good; i++) good = results(i) == S[i][p[i]];
      for (int i = 0; i < n && good; i++)
        for (int j = 0; j < n && good; j++)
          if (draws[i] && draws[j] && X->last[i] < X->first[j] && p[i] > p[j]) good = false;
      if (good) { ok = true; if (c.random) ranks.insert(p); break; }
    } while (std::next_permutation(q.begin(), q.end()));
    if (!ok) {
      std::string m = what + ": under the schedule [" + schedule() + "] the results are not those of the threads run alone with distinct ranks\n";
      for (int i = 0; i < n; i++) {
        m += "thread " + std::to_string(i) + ": " + show(results(i)) + "\n";
        for (int r = 0; r < n; r++) m += "   alone with rank " + std::to_string(r + 1) + ": " + show(S[i][r]) + "\n";
      }
      R.violation(m);
    }
  });
  R.counters["rank orders observed"] += ranks.size();
  R.sample(what + ": " + std::to_string(ranks.size()) + " rank orders");
}
static void c21_one(const Cfg &c) {
  g_prog = c.prog;
  int n = (int)c.prog.size();
  std::string what = "VFC_BACKENDS=\"" + c.backends + "\", threads: " + progs();
  std::vector<V> S;
  for (int i = 0; i < n; i++) S.push_back(solo(c.prog[i], 1, ""));
  long want[NK] = {0};
  for (auto &p : c.prog) for (char o : p) if (desc(o).kind >= 0) want[desc(o).kind] += desc(o).lanes;
  const char *names[NK] = {"mul", "div", "add", "sub", "fma"};
  explore(what, c.bound, true, [&](int st) {
    if (died(st, what)) return;
    for (int i = 0; i < n; i++) if (results(i) != S[i])
      R.violation(what + ": under the schedule [" + schedule() + "] thread " + std::to_string(i) + " computes " + show(results(i)) + " instead of " + show(S[i]));
    std::string e = errtext();
    for (int k = 0; k < NK; k++) {
      std::string key = std::string(names[k]) + "=";
      size_t p = e.find(key);
      long got = -1;
      if (p != std::string::npos) got = strtol(e.c_str() + p + key.size(), nullptr, 10);
      if (got != want[k] || e.find(key, p + 1) != std::string::npos)
        R.violation(what + ": " + std::to_string(want[k]) + " " + names[k] + " executed, " + std::to_string(got) + " reported under the schedule [" + schedule() + "]\n" + e);
    }
  });
}
// delta-debug generation: every executed site, by all the threads, is in the list
static void c13_one(const Cfg &c, const std::string &file) {
  g_prog = c.prog;
  int n = (int)c.prog.size();
  std::string what = "delta-debug generation, threads: " + progs();
  auto listed = [&]() {
    std::set<std::string> s;
    FILE *f = fopen(file.c_str(), "r");
    char b[256];
    if (f) { while (fgets(b, sizeof b, f)) { char *q = strchr(b, ':'); if (q) *q = 0; s.insert(b); } fclose(f); }
    return s;
  };
  unlink(file.c_str());
  int st = execute(0, 0, true, true);
  if (died(st, what + " (one after the other)")) return;
  auto want = listed();
  if (want.empty()) { fprintf(stderr, "HARNESS: no site listed\n"); _exit(3); }
  explore(what, c.bound, true, [&](int st) {
    if (died(st, what)) return;
    auto got = listed();
    if (got != want) {
      std::string m = what + ": under the schedule [" + schedule() + "] the list of executed sites has";
      for (auto &x : got) m += " " + x;
      m += " instead of";
      for (auto &x : want) m += " " + x;
      R.violation(m);
    }
    unlink(file.c_str());
    (void)n;
  });
}
// one thread: a stream per seed
static void c08_seeds(const std::string &be, const std::string &ops, const std::string &wrap, const std::vector<std::string> &seeds) {
  std::map<V, std::string> seen;
  for (int rank = 1; rank <= 2; rank++) {
    seen.clear();
    for (auto &s : seeds) {
      // a process per setting: the backend is loaded once per process
      int fd[2];
      if (pipe(fd)) exit(3);
      V v[2];
      for (int k = 0; k < 2; k++) {
        pid_t p = fork();
        if (!p) {
          std::string b = be;
          size_t q;
          while ((q = b.find("%s")) != std::string::npos) b.replace(q, 2, s);
          wrapper(wrap, b);
          V r = solo(ops, rank, ops.substr(0, 1));
          if (R.nviol || write(fd[1], r.data(), r.size() * 8) < 0) _exit(1);
          _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        R.states++;
        if (st) { R.violation("VFC_BACKENDS=\"" + be + "\" with the seed " + s + " fails\n" + errtext()); close(fd[0]); close(fd[1]); return; }
        uint64_t buf[MAXRES];
        ssize_t got = read(fd[0], buf, sizeof buf);
        v[k] = V(buf, buf + got / 8);
      }
      close(fd[0]); close(fd[1]);
      if (v[0] != v[1]) R.violation("VFC_BACKENDS=\"" + be + "\": two runs with the seed " + s + " (rank " + std::to_string(rank) + ") differ: " + show(v[0]) + " / " + show(v[1]));
      if (seen.count(v[0])) R.violation("VFC_BACKENDS=\"" + be + "\": the seeds " + seen[v[0]] + " and " + s + " give the same stream at rank " + std::to_string(rank) + ": " + show(v[0]));
      seen[v[0]] = s;
      R.nontrivial++;
    }
  }
}

int main(int argc, char **argv) {
  if (argc < 6) return 3;
  std::string mode = argv[1], lib = argv[2], wdir = argv[5 + 1 <= argc - 1 ? 6 : 5];
  int shard = atoi(argv[3]), nsh = atoi(argv[4]);
  bool thorough = !strcmp(argv[5], "thorough");
  X = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto *RS = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_err = memfd_create("err", 0);
  // dlsym inside the lock shim must not happen in a thread first
  { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); }
  auto so = [&](const std::string &n) { return lib + "/libinterflop_" + n + ".so"; };
  std::string wrap = lib + (mode == "C13" ? "/wrapper_dd.so" : mode == "C08" ? "/wrapper_plain.so" : "/wrapper.so");
  std::vector<std::function<void()>> jobs;
  auto job = [&](const Cfg &c) {
    jobs.push_back([=]() {
      if (mode == "C13") setenv("VFC_DDEBUG_GEN", (wdir + "/gen" + std::to_string(shard)).c_str(), 1);
      wrapper(wrap, c.backends);
      if (mode == "C08") c08_one(c);
      else if (mode == "C21") c21_one(c);
      else c13_one(c, wdir + "/gen" + std::to_string(shard));
    });
  };
  int b2 = thorough ? 3 : 2;
  if (mode == "C08") {
    struct B { std::string s, d; std::vector<std::string> seq; };
    std::vector<B> bs = {
      {so("mca") + " --seed=42", "A", {"A", "a", "M", "u", "5"}},
      {so("mca") + " --seed=42 --sparsity=0.5 --mode=rr", "A", {"A", "a", "D", "U"}},
      {so("mca_int") + " --seed=42", "A", {"A", "a", "M", "5"}},
      {so("bitmask") + " --seed=42 --operator=rand --precision-binary32=3 --precision-binary64=5", "A", {"A", "a", "D", "5"}},
      {so("cancellation") + " --seed=42 --tolerance=1", "S", {"S", "s", "6", "2"}},
      {so("mca") + " --seed=42;" + so("bitmask") + " --seed=7 --operator=rand --precision-binary32=3 --precision-binary64=5", "A", {"A", "a"}},
    };
    for (auto &b : bs) {
      auto &q = b.seq;
      // all ordered pairs of one-operation threads; two operations each; three threads
      for (size_t i = 0; i < q.size(); i++) for (size_t j = i; j < q.size(); j++) job({b.s, b.d, {q[i], q[j]}, b2, true});
      job({b.s, b.d, {q[0] + q[1], q[1] + q[0]}, b2, true});
      job({b.s, b.d, {q[0] + q[0] + q[0], q[0]}, thorough ? 3 : 1, true});
      job({b.s, b.d, {q[0], q[0], q[0]}, thorough ? 2 : 1, true});
      job({b.s, b.d, {q[0] + q[1], q[1], q[0]}, thorough ? 2 : 1, true});
      if (thorough) job({b.s, b.d, {q[0], q[1], q[0], q[1]}, 1, true});
    }
    for (auto s : {so("ieee"), so("vprec") + " --precision-binary64=20 --mode=full", so("ieee") + " --count-op"}) {
      for (auto p : std::vector<std::vector<std::string>>{{"AaMm", "DdSs"}, {"A5", "F1"}, {"a", "M", "D"}}) job({s, "A", p, thorough ? 3 : 2, false});
    }
    std::vector<std::string> seeds = {"0", "1", "2", "3", "4", "7", "8", "255", "256", "65535", "65536", "65537", "16777217", "2147483647", "2147483648",
                                      "4294967295", "4294967296", "4294967297", "4294967299", "1099511627777", "4503599627370497", "9007199254740993", "281474976710657",
                                      "9223372036854775806", "9223372036854775807"};
    std::string ops = "AaMmDdSsAaMmDdSsAaMmDdSs";
    for (auto b : {so("mca") + " --seed=%s", so("mca_int") + " --seed=%s", so("bitmask") + " --operator=rand --precision-binary32=3 --precision-binary64=5 --seed=%s",
                   so("cancellation") + " --tolerance=1 --seed=%s"}) {
      std::string o = b.find("cancell") != std::string::npos ? std::string("SsSsSsSsSsSsSsSsSsSsSsSs") : ops;
      jobs.push_back([=]() { c08_seeds(b, o, wrap, seeds); });
    }
  } else if (mode == "C21") {
    std::string s = so("ieee") + " --count-op";
    std::string all = "asmdASMD12345678fF";
    // every pair of one-operation threads
    for (size_t i = 0; i < all.size(); i++) for (size_t j = i; j < all.size(); j++)
      if (thorough || desc(all[i]).kind == desc(all[j]).kind)
        job({s, "", {std::string(1, all[i]), std::string(1, all[j])}, thorough ? 4 : desc(all[i]).lanes + desc(all[j]).lanes > 4 ? 2 : 3, false});
    for (auto p : std::vector<std::vector<std::string>>{{"AA", "AA"}, {"aA", "Aa"}, {"AMD", "DMA"}, {"FfA", "fS"}, {"cCk", "kA"}}) job({s, "", p, thorough ? 3 : 2, false});
    for (auto p : std::vector<std::vector<std::string>>{{"A", "A", "A"}, {"a", "m", "a"}, {"FA", "F", "f"}}) job({s, "", p, thorough ? 3 : 2, false});
    job({s, "", {"A", "A", "A", "A"}, thorough ? 2 : 1, false});
    job({so("ieee") + " --count-op;" + so("vprec"), "", {"AM", "MA"}, 2, false});
  } else if (mode == "C13") {
    for (auto p : std::vector<std::vector<std::string>>{{"A", "M"}, {"A", "A"}, {"asmdAS", "M"}, {"AMDS", "asmd"}}) {
      size_t n = p[0].size() + p[1].size();
      job({so("ieee"), "", p, n <= 2 ? b2 : thorough ? 2 : 1, false});
    }
    job({so("ieee"), "", {"AS", "MD", "F"}, 1, false});
  }
  for (size_t i = 0; i < jobs.size(); i++) {
    if ((int)(i % nsh) != shard) continue;
    if (now() < 0) break;
    pid_t p = fork();
    if (!p) {
      R = Report();
      jobs[i]();
      std::string s = R.dump();
      snprintf(RS, 1 << 20, "%s", s.c_str());
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "HARNESS: job %zu ended with %x\n", i, st); return WIFEXITED(st) && WEXITSTATUS(st) == 3 ? 3 : 1; }
    R.absorb(RS);
  }
  R.print();
  return 0;
}
