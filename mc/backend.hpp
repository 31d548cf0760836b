// Loads a backend shared object as the wrapper does, and owns the random draws.
#pragma once
#include <argp.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <err.h>
#include <errno.h>
#include <functional>
#include <limits>
#include <map>
#include <printf.h>
#include <set>
#include <string>
#include <strings.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <vector>

enum FCMP_PREDICATE {
  FCMP_FALSE, FCMP_OEQ, FCMP_OGT, FCMP_OGE, FCMP_OLT, FCMP_OLE, FCMP_ONE, FCMP_ORD,
  FCMP_UNO, FCMP_UEQ, FCMP_UGT, FCMP_UGE, FCMP_ULT, FCMP_ULE, FCMP_UNE, FCMP_TRUE
};
struct Vt {
  void (*add_f)(float, float, float *, void *);
  void (*sub_f)(float, float, float *, void *);
  void (*mul_f)(float, float, float *, void *);
  void (*div_f)(float, float, float *, void *);
  void (*cmp_f)(int, float, float, int *, void *);
  void (*add_d)(double, double, double *, void *);
  void (*sub_d)(double, double, double *, void *);
  void (*mul_d)(double, double, double *, void *);
  void (*div_d)(double, double, double *, void *);
  void (*cmp_d)(int, double, double, int *, void *);
  void (*cast)(double, float *, void *);
  void (*fma_f)(float, float, float, float *, void *);
  void (*fma_d)(double, double, double, double *, void *);
  void (*enter)(void *, void *, int, va_list);
  void (*exit)(void *, void *, int, va_list);
  void (*user_call)(void *, int, va_list);
  void (*finalize)(void *);
};

static long my_strtol(const char *p, char **e, int *error) {
  *error = 0; errno = 0;
  long v = strtoll(p, e, 10);
  if (errno) *error = 1;
  return v;
}
static double my_strtod(const char *p, char **e, int *error) {
  *error = 0; errno = 0;
  double v = strtod(p, e);
  if (errno) *error = 1;
  return v;
}
static pid_t my_gettid(void) { return syscall(SYS_gettid); }
static void my_panic(const char *m) { fprintf(stderr, "%s", m); _exit(1); }
static void my_exit(int c) { fflush(stderr); _exit(c); }
static void h0() {}
static void h1(int) {}

struct Backend {
  void *h = nullptr, *ctx = nullptr;
  Vt v{};
  std::vector<std::string> args;
  void user(int id, ...) {
    va_list ap;
    va_start(ap, id);
    v.user_call(ctx, id, ap);
    va_end(ap);
  }
};
static std::string g_prefix;

static Backend load_backend(const std::string &name, const std::vector<std::string> &args) {
  Backend b;
  b.args = args;
  std::string so = g_prefix + "/lib/libinterflop_" + name + ".so";
  b.h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!b.h) { fprintf(stderr, "HARNESS: %s\n", dlerror()); exit(3); }
  typedef void (*set_t)(const char *, void *);
  set_t set = (set_t)dlsym(b.h, "interflop_set_handler");
  auto pre = (void (*)(void (*)(const char *), FILE *, void **))dlsym(b.h, "interflop_pre_init");
  auto cli = (void (*)(int, char **, void *))dlsym(b.h, "interflop_cli");
  auto init = (Vt(*)(void *))dlsym(b.h, "interflop_init");
  if (!set || !pre || !cli || !init) { fprintf(stderr, "HARNESS: missing entry point in %s\n", so.c_str()); exit(3); }
#define S(n, f) set(n, (void *)(f))
  S("getenv", getenv); S("sprintf", sprintf); S("strerror", (char *(*)(int))strerror); S("gettid", my_gettid);
  S("fopen", fopen); S("strcasecmp", strcasecmp); S("vwarnx", vwarnx); S("fprintf", fprintf);
  S("exit", my_exit); S("vfprintf", vfprintf); S("malloc", malloc); S("strcmp", strcmp);
  S("strtol", my_strtol); S("strtod", my_strtod); S("strcpy", strcpy); S("strncpy", strncpy);
  S("fclose", fclose); S("fgets", fgets); S("strtok_r", strtok_r); S("free", free);
  S("calloc", calloc); S("argp_parse", argp_parse); S("gettimeofday", gettimeofday);
  S("register_printf_specifier", register_printf_specifier);
  S("infHandler", h0); S("nanHandler", h0); S("cancellationHandler", h1); S("denormalHandler", h0); S("maxHandler", h0);
#undef S
  pre(my_panic, stderr, &b.ctx);
  std::vector<char *> argv;
  argv.push_back(strdup(so.c_str()));
  for (auto &a : args) argv.push_back(strdup(a.c_str()));
  argv.push_back(nullptr);
  cli((int)argv.size() - 1, argv.data(), b.ctx);
  b.v = init(b.ctx);
  for (auto p : argv) free(p);
  return b;
}

// ---- the random seam: every draw the backend makes is answered from here ----
struct Draws {
  std::vector<uint64_t> alphabet{0};
  std::vector<int> choice;     // the decision sequence being replayed/extended
  size_t pos = 0;              // draws consumed by this execution
  uint64_t total = 0;
  uint64_t next() {
    total++;
    if (pos >= choice.size()) choice.push_back(0);
    return alphabet[choice[pos++]];
  }
  void begin() { pos = 0; }
  // next leaf of the decision tree; false when all are done
  bool advance() {
    choice.resize(pos);
    while (!choice.empty()) {
      if (++choice.back() < (int)alphabet.size()) return true;
      choice.pop_back();
    }
    return false;
  }
  void reset() { choice.clear(); pos = 0; }
};
static Draws g_draws;
static inline double u01(uint64_t w) { return (double)(w >> 12) * 0x1p-52; }
#ifndef REALRNG // with it, the tree's own generator answers
extern "C" {
__attribute__((visibility("default"))) uint64_t get_rand_uint64(void *, pid_t *) { return g_draws.next(); }
__attribute__((visibility("default"))) uint32_t get_rand_uint32(void *, pid_t *) { return (uint32_t)g_draws.next(); }
__attribute__((visibility("default"))) double get_rand_double01(void *, pid_t *) { return u01(g_draws.next()); }
}
#endif

// ---- reporting ----
#include "watchdog.hpp"
struct Report {
  uint64_t states = 0, transitions = 0, nontrivial = 0, nviol = 0, traces = 0;
  std::vector<std::string> viols, samples;
  std::map<std::string, uint64_t> counters;
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void violation(const std::string &s) {
    nviol++;
    if (viols.size() < 12) viols.push_back(s);
  }
  static std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else o += c;
    }
    return o;
  }
  void print() {
    printf("{\"states\":%lu,\"transitions\":%lu,\"nontrivial\":%lu,\"traces\":%lu,\"nviol\":%lu,\"viols\":[", states, transitions, nontrivial, traces, nviol);
    for (size_t i = 0; i < viols.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(viols[i]).c_str());
    printf("],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    printf("],\"counters\":{");
    bool f = true;
    for (auto &k : counters) { printf("%s\"%s\":%lu", f ? "" : ",", k.first.c_str(), k.second); f = false; }
    printf("}}\n");
    fflush(stdout);
  }
};
static Report R;

template <class T> static inline bool same(T a, T b) {
  if (a != a || b != b) return (a != a) && (b != b);
  return !memcmp(&a, &b, sizeof(T));
}
template <class T> static inline bool same0(T a, T b) { return same(a, b) || (a == 0 && b == 0); }
static inline std::string hex(double x) { char b[64]; snprintf(b, 64, "%a", x); return b; }
static inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static inline float ff(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline double dd(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
