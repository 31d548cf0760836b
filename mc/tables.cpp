// C20 (hash table) and C18 (probes): all operation sequences up to a bound on the
// real libraries, from the initial and from prefilled states, against a plain map.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "watchdog.hpp"
struct Report {
  uint64_t states = 0, transitions = 0, nontrivial = 0, nviol = 0, traces = 0;
  std::vector<std::string> viols, samples;
  void violation(const std::string &s) { nviol++; if (viols.size() < 12) viols.push_back(s); }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  static std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o;
  }
  void print() {
    printf("{\"states\":%lu,\"transitions\":%lu,\"nontrivial\":%lu,\"traces\":%lu,\"nviol\":%lu,\"viols\":[", states, transitions, nontrivial, traces, nviol);
    for (size_t i = 0; i < viols.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(viols[i]).c_str());
    printf("],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    printf("]}\n");
    fflush(stdout);
  }
} R;
static std::string prefix;
static int shard, nshards;
static bool thorough;
static void *lib(const char *n) {
  void *h = dlopen((prefix + "/lib/" + n).c_str(), RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  return h;
}
static void *sym(void *h, const char *n) {
  void *p = dlsym(h, n);
  if (!p) { fprintf(stderr, "missing %s\n", n); exit(3); }
  return p;
}
typedef void *Map;
static Map (*mk)(void);
static void (*destroy)(Map);
static void (*ins)(Map, size_t, void *);
static void (*rem)(Map, size_t);
static char (*have)(Map, size_t);
static void *(*get)(Map, size_t);
static size_t (*num)(Map);
static void handlers() {
  void *s = lib("libinterflop_stdlib.so");
  auto set = (void (*)(const char *, void *))sym(s, "interflop_set_handler");
  set("malloc", (void *)malloc); set("calloc", (void *)calloc); set("free", (void *)free);
  set("fprintf", (void *)fprintf); set("exit", (void *)exit); set("strcmp", (void *)strcmp);
  set("getenv", (void *)getenv); set("fopen", (void *)fopen); set("fclose", (void *)fclose);
}

struct OpH { int kind; size_t key; size_t val; }; // 0 insert 1 remove
struct Model {
  std::map<size_t, std::set<size_t>> m;
  size_t n() const { size_t k = 0; for (auto &x : m) k += x.second.size(); return k; }
  std::string str() const {
    std::string s;
    for (auto &x : m) { s += std::to_string(x.first) + ":"; for (auto v : x.second) s += std::to_string(v) + ","; s += ";"; }
    return s;
  }
};
static std::set<std::string> seen;
static void c20() {
  void *h = lib("libinterflop_hashmap.so");
  mk = (Map(*)())sym(h, "vfc_hashmap_create"); destroy = (void (*)(Map))sym(h, "vfc_hashmap_destroy");
  ins = (void (*)(Map, size_t, void *))sym(h, "vfc_hashmap_insert"); rem = (void (*)(Map, size_t))sym(h, "vfc_hashmap_remove");
  have = (char (*)(Map, size_t))sym(h, "vfc_hashmap_have"); get = (void *(*)(Map, size_t))sym(h, "vfc_hashmap_get");
  num = (size_t(*)(Map))sym(h, "vfc_hashmap_num_items");
  // keys: colliding at several capacities, zero, and large; values: shared between keys
  struct U { std::vector<size_t> keys; std::vector<size_t> vals; int depth; int fill; int removed; };
  std::vector<U> us;
  us.push_back({{1, 9, 0, 17}, {16, 32}, thorough ? 7 : 6, 0, 0});
  us.push_back({{1, 1 + (size_t)1 << 40, 2, 8193}, {16, 0x7fffdeadbeef0ull}, thorough ? 7 : 5, 0, 0});
  for (int fill = 1; fill <= (thorough ? 120 : 60); fill++) for (int removed = 0; removed <= std::min(fill, 9); removed += 3)
    us.push_back({{1, 9, 65, 3}, {16, 32}, thorough ? 4 : 3, fill, removed});
  for (int fill : {110, 111, 217, 218, 400, 870, 1741}) us.push_back({{1, 9, 65, 3}, {16, 32}, 3, fill, 0});
  int w = 0;
  for (auto &u : us) {
    std::vector<OpH> al;
    for (auto k : u.keys) for (auto v : u.vals) al.push_back({0, k, v});
    for (auto k : u.keys) al.push_back({1, k, 0});
    std::vector<int> seq(u.depth, 0);
    // the first operation partitions the space over the shards
    for (size_t first = 0; first < al.size(); first++) {
      if (w++ % nshards != shard) continue;
      std::fill(seq.begin(), seq.end(), 0);
      seq[0] = first;
      for (;;) {
        Map m = mk();
        Model M;
        for (int i = 0; i < u.fill; i++) { // keys of the fill: strided, away from the alphabet
          size_t k = 1000 + 8 * (size_t)i, v = 4096 + 16 * (size_t)i;
          ins(m, k, (void *)v); M.m[k].insert(v);
        }
        for (int i = 0; i < u.removed; i++) { size_t k = 1000 + 8 * (size_t)((i * 7) % u.fill); rem(m, k); M.m.erase(k); }
        std::string trace, bad;
        R.traces++;
        auto check = [&](size_t k) {
          auto it = M.m.find(k);
          bool in = it != M.m.end() && !it->second.empty();
          if ((have(m, k) != 0) != in) bad = "have(" + std::to_string(k) + ") = " + std::to_string((int)have(m, k));
          size_t g = (size_t)get(m, k);
          if (in ? !it->second.count(g) : g != 0) bad = "get(" + std::to_string(k) + ") = " + std::to_string(g);
        };
        for (int d = 0; d < u.depth && bad.empty(); d++) {
          const OpH &o = al[seq[d]];
          trace += o.kind ? "remove(" + std::to_string(o.key) + ") " : "insert(" + std::to_string(o.key) + "," + std::to_string(o.val) + ") ";
          if (d == u.depth - 1) snprintf(wd_where, sizeof wd_where, "%d insertions, %d removals, then %s", u.fill, u.removed, trace.c_str());
          if (o.kind == 0) { ins(m, o.key, (void *)o.val); M.m[o.key].insert(o.val); }
          else if (M.m[o.key].size() <= 1) { rem(m, o.key); M.m.erase(o.key); }
          else { M.m[o.key].size(); continue; } // several values under one key: removal order is not specified
          R.transitions++;
          for (auto k : u.keys) check(k);
          check(5); check(4242);
          if (num(m) != M.n()) bad = "num_items = " + std::to_string(num(m)) + ", the map holds " + std::to_string(M.n());
          if (u.fill == 0 && seen.insert(M.str()).second) R.states++;
        }
        if (bad.empty()) for (int i = 0; i < u.fill; i++) check(1000 + 8 * (size_t)i);
        if (u.fill) R.states++;
        if (M.n() > 1) R.nontrivial++;
        if (!bad.empty()) R.violation("after " + std::to_string(u.fill) + " insertions (keys 1000+8i), " + std::to_string(u.removed) + " removals, then " + trace + ": " + bad);
        else if (R.traces % 100003 == 1) R.sample("fill " + std::to_string(u.fill) + " " + trace + "-> " + std::to_string(num(m)) + " items");
        destroy(m);
        if (R.nviol > 40) return;
        int d = u.depth - 1;
        while (d > 0 && ++seq[d] == (int)al.size()) seq[d--] = 0;
        if (d == 0) break;
      }
    }
  }
}

// ------------------------------------------------------------------ probes
struct Probes { void *map; };
struct P { std::string t, v; double val; double thr; int kind; }; // kind 0 none 1 absolute 2 relative (+3: Fortran entry points)
static Probes (*p_init)(void);
static int (*p0)(Probes *, char *, char *, double);
static int (*p1)(Probes *, char *, char *, double, double);
static int (*p2)(Probes *, char *, char *, double, double);
static int (*f0)(Probes *, char *, char *, double *);
static int (*f1)(Probes *, char *, char *, double *, double *);
static int (*f2)(Probes *, char *, char *, double *, double *);
static unsigned (*p_num)(Probes *);
static int (*p_dump)(Probes *);
static std::string dir;
static int apply(Probes *p, const P &x) {
  // names from buffers that are overwritten afterwards: the table must own what it keeps
  char tb[64], vb[64];
  snprintf(tb, 64, "%s", x.t.c_str()); snprintf(vb, 64, "%s", x.v.c_str());
  double val = x.val, thr = x.thr;
  int r;
  switch (x.kind) {
  case 0: r = p0(p, tb, vb, val); break;
  case 1: r = p1(p, tb, vb, val, thr); break;
  case 2: r = p2(p, tb, vb, val, thr); break;
  case 3: r = f0(p, tb, vb, &val); break;
  case 4: r = f1(p, tb, vb, &val, &thr); break;
  default: r = f2(p, tb, vb, &val, &thr); break;
  }
  memset(tb, '#', 63); memset(vb, '#', 63);
  return r;
}
static bool samed(double a, double b) { if (a != a || b != b) return a != a && b != b; return !memcmp(&a, &b, 8); }
static std::string show(const std::vector<P> &s) {
  std::string o;
  for (auto &x : s) { char b[256]; snprintf(b, 256, "probe%d(%s|%s,%a,%a) ", x.kind, x.t.c_str(), x.v.c_str(), x.val, x.thr); o += b; }
  return o.size() > 700 ? o.substr(0, 700) + "..." : o;
}
static std::string verify_csv(const std::string &file, const std::vector<P> &s) {
  std::ifstream in(file);
  if (!in) return "no file was written";
  std::string l;
  if (!std::getline(in, l) || l != "test,variable,value,accuracy_threshold,check_mode") return "header is '" + l + "'";
  std::vector<bool> used(s.size());
  size_t n = 0;
  while (std::getline(in, l)) {
    n++;
    std::vector<std::string> f;
    std::stringstream ss(l);
    std::string c;
    while (std::getline(ss, c, ',')) f.push_back(c);
    if (f.size() != 5) return "row '" + l + "'";
    bool hit = false;
    for (size_t i = 0; i < s.size() && !hit; i++) {
      if (used[i] || s[i].t != f[0] || s[i].v != f[1]) continue;
      const char *mode[] = {"none", "absolute", "relative"};
      double thr = s[i].kind % 3 == 0 ? 0 : s[i].thr;
      if (!samed(strtod(f[2].c_str(), nullptr), s[i].val) || !samed(strtod(f[3].c_str(), nullptr), thr) || f[4] != mode[s[i].kind % 3]) return "row '" + l + "' does not match what was recorded";
      used[i] = hit = true;
    }
    if (!hit) return "row '" + l + "' was not recorded (or is written twice)";
  }
  if (n != s.size()) return std::to_string(n) + " rows for " + std::to_string(s.size()) + " probes";
  return "";
}
static bool has_comma(const P &x) { return x.t.find(',') != std::string::npos || x.v.find(',') != std::string::npos; }
static void quiet() { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); }
static int mute_out(bool on) { // the library prints on stdout when no file is set
  static int saved = -1;
  fflush(stdout);
  if (on) { saved = dup(1); int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); }
  else { dup2(saved, 1); close(saved); }
  return 0;
}
static void c18() {
  lib("libinterflop_hashmap.so");
  void *h = lib("libvfc_probes.so");
  p_init = (Probes(*)())sym(h, "vfc_init_probes");
  p0 = (decltype(p0))sym(h, "vfc_probe"); p1 = (decltype(p1))sym(h, "vfc_probe_check"); p2 = (decltype(p2))sym(h, "vfc_probe_check_relative");
  f0 = (decltype(f0))sym(h, "vfc_probe_f"); f1 = (decltype(f1))sym(h, "vfc_probe_check_f"); f2 = (decltype(f2))sym(h, "vfc_probe_check_relative_f");
  p_num = (decltype(p_num))sym(h, "vfc_num_probes"); p_dump = (decltype(p_dump))sym(h, "vfc_dump_probes");
  std::string file = dir + "/probes.csv";
  auto run_ok = [&](const std::vector<P> &s) {
    unlink(file.c_str());
    setenv("VFC_PROBES_OUTPUT", file.c_str(), 1);
    Probes p = p_init();
    std::string bad;
    for (size_t i = 0; i < s.size(); i++) {
      if (apply(&p, s[i])) bad = "probe " + std::to_string(i) + " refused";
      if (p_num(&p) != i + 1) bad = "count is " + std::to_string(p_num(&p)) + " after " + std::to_string(i + 1) + " probes";
      R.transitions++;
    }
    if (bad.empty() && p_dump(&p)) bad = "dump failed";
    if (bad.empty()) bad = verify_csv(file, s);
    R.states++; R.traces++;
    if (s.size() > 1) R.nontrivial++;
    if (!bad.empty()) R.violation(show(s) + ": " + bad);
  };
  auto run_err = [&](const std::vector<P> &s) { // the last probe must be refused with an error
    unlink(file.c_str());
    setenv("VFC_PROBES_OUTPUT", file.c_str(), 1);
    fflush(stdout);
    int pp[2];
    if (pipe(pp)) exit(3);
    pid_t pid = fork();
    if (!pid) {
      close(pp[0]);
      int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(pp[1], 2);
      Probes p = p_init();
      for (size_t i = 0; i + 1 < s.size(); i++) if (apply(&p, s[i])) _exit(50);
      apply(&p, s.back());
      _exit(51);
    }
    close(pp[1]);
    char buf[512];
    ssize_t n = 0, k;
    while ((k = read(pp[0], buf, 512)) > 0) n += k;
    close(pp[0]);
    int st;
    waitpid(pid, &st, 0);
    R.states++; R.traces++; R.nontrivial++; R.transitions += s.size();
    if (WIFSIGNALED(st)) R.violation(show(s) + ": killed by a signal");
    else if (WEXITSTATUS(st) == 51) R.violation(show(s) + ": the last probe is accepted");
    else if (WEXITSTATUS(st) == 50) R.violation(show(s) + ": an earlier probe is refused");
    else if (WEXITSTATUS(st) == 0) R.violation(show(s) + ": refused with exit status 0");
    else if (n <= 0) R.violation(show(s) + ": refused without an error message");
  };
  std::vector<std::pair<std::string, std::string>> names = {{"t", "Aa"}, {"t", "BB"}, {"ab", "c"}, {"a", "bc"}, {"", "x"}, {"x", ""}, {"", ""}, {"tAa", "v"}, {"tBB", "v"}, {"t v", "w;%s%n"}, {"t,u", "v"}, {"t", "u,v"}, {"t", ","}};
  std::vector<double> vals = {0.0, -0.0, 0.1, -1.5, 5e-324, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 0x1.23456789abcdep-1000};
  int w = 0;
  auto mine = [&]() { return w++ % nshards == shard; };
  // every value x threshold x entry point
  for (double v : vals) for (double t : vals) for (int k = 0; k < 6; k++) if (mine()) run_ok({{"t", "v", v, t, k}});
  // all sequences of names up to length L
  int L = thorough ? 5 : 4;
  std::vector<int> seq;
  std::function<void()> dummy;
  struct Rec {
    static void go(std::vector<int> &seq, int L, const std::vector<std::pair<std::string, std::string>> &names, const std::vector<double> &vals,
                   std::function<void(const std::vector<P> &)> ok, std::function<void(const std::vector<P> &)> er, std::function<bool()> mine) {
      std::vector<P> s;
      bool err = false;
      for (size_t i = 0; i < seq.size(); i++) {
        P x{names[seq[i]].first, names[seq[i]].second, vals[(seq[i] + 3 * i) % vals.size()], vals[(2 + i) % 4], (int)((seq[i] + i) % 6)};
        for (auto &y : s) if (y.t == x.t && y.v == x.v) err = true;
        if (has_comma(x)) err = true;
        s.push_back(x);
      }
      if (err) { if (mine()) er(s); return; } // the history ends with the refused probe
      if (mine()) ok(s);
      if ((int)seq.size() == L) return;
      for (size_t k = 0; k < names.size(); k++) { seq.push_back(k); go(seq, L, names, vals, ok, er, mine); seq.pop_back(); }
    }
  };
  Rec::go(seq, L, names, vals, run_ok, run_err, mine);
  // growth: every number of probes up to N, then a duplicate of each of a few of them
  int N = thorough ? 400 : 200;
  for (int n = 1; n <= N; n++) {
    if (!mine()) continue;
    std::vector<P> s;
    for (int i = 0; i < n; i++) s.push_back({"test" + std::to_string(i % 7), "v" + std::to_string(i), vals[i % vals.size()] , 0.25 * i, i % 6});
    run_ok(s);
    for (int j : {0, n / 2, n - 1}) { auto e = s; e.push_back(s[j]); e.back().val = 7; run_err(e); }
  }
  // all 2-letter collisions under growth
  {
    std::vector<P> s;
    for (char a = 'B'; a < 'Z'; a++) for (char b = 'A'; b < 'I'; b++) { // (a,b) and (a-1,b+31) collide
      s.push_back({"t", std::string() + a + b, 1.0 * a * b, 0, 0});
      s.push_back({"t", std::string() + (char)(a - 1) + (char)(b + 31), -1.0 * a * b, 0, 1});
    }
    if (mine()) run_ok(s);
    for (size_t j = 0; j < s.size(); j++) { auto e = s; e.push_back(s[j]); if (mine()) run_err(e); }
  }
  // no output file / unwritable output file
  if (mine()) {
    unlink(file.c_str());
    unsetenv("VFC_PROBES_OUTPUT");
    mute_out(true);
    Probes p = p_init();
    apply(&p, {"t", "v", 1, 0, 0});
    int r = p_dump(&p);
    mute_out(false);
    R.states++; R.transitions++;
    if (r) R.violation("dump without VFC_PROBES_OUTPUT fails");
    if (!access(file.c_str(), F_OK)) R.violation("a file is written without VFC_PROBES_OUTPUT");
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      quiet();
      setenv("VFC_PROBES_OUTPUT", (dir + "/no/such/dir/x.csv").c_str(), 1);
      Probes q = p_init();
      apply(&q, {"t", "v", 1, 0, 0});
      p_dump(&q);
      _exit(51);
    }
    int st;
    waitpid(pid, &st, 0);
    R.states++; R.transitions++;
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 51 || WEXITSTATUS(st) == 0) R.violation("an unwritable VFC_PROBES_OUTPUT is not an error");
  }
  unlink(file.c_str());
  R.sample(show({{"t", "BB", 0.1, 0.5, 1}, {"t", "Aa", -0.0, 0.5, 2}}) + "-> 2 rows");
}
int main(int argc, char **argv) {
  if (argc < 7) return 3;
  prefix = argv[2]; shard = atoi(argv[3]); nshards = atoi(argv[4]); thorough = !strcmp(argv[5], "thorough"); dir = argv[6];
  handlers();
  watchdog(&R.states, &R.transitions);
  if (!strcmp(argv[1], "C20")) c20(); else c18();
  R.print();
  return 0;
}
