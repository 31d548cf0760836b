// The trace of the ieee backend (--debug, --debug-binary and the options that shape it):
// every operation x operand tuple x all 64 option subsets; each record is parsed back and
// compared with the operation that was asked for.
#define REALRNG
#include "backend.hpp"
#include <sys/mman.h>
#include <string>
#include <vector>

static int g_shard, g_nshards, g_fd;
static bool g_thorough;
enum Op { ADD, SUB, MUL, DIV, CMP, CAST, FMA };
static const char *SYM[] = {"+", "-", "*", "/"};
static const char *PRED[] = {"FALSE", "OEQ", "OGT", "OGE", "OLT", "OLE", "ONE", "ORD", "UNO", "UEQ", "UGT", "UGE", "ULT", "ULE", "UNE", "TRUE"};

struct Rec { Op op; int p; bool dbl; double a, b, c, r; bool truth; };
static std::vector<Rec> g_recs;
struct Opts { bool d, b, n, p, s, o; std::string name; };

static std::string drain() {
  fflush(stderr);
  off_t n = lseek(g_fd, 0, SEEK_END);
  std::string s(n, '\0');
  if (n && pread(g_fd, &s[0], n, 0) != n) _exit(3);
  if (ftruncate(g_fd, 0)) _exit(3);
  lseek(g_fd, 0, SEEK_SET);
  return s;
}

struct Tok { std::string s; int line; };
static std::vector<Tok> split(const std::string &s) {
  std::vector<Tok> v; int line = 0; std::string cur;
  for (char c : s) {
    if (c == ' ' || c == '\n' || c == '\t') { if (!cur.empty()) { v.push_back({cur, line}); cur.clear(); } if (c == '\n') line++; }
    else cur += c;
  }
  if (!cur.empty()) v.push_back({cur, line});
  return v;
}

// reads a value of the given width at token i
static bool value(const std::vector<Tok> &t, size_t &i, bool binary, bool dbl, bool norm, double x, std::string &why) {
  if (i >= t.size()) { why = "a value is missing"; return false; }
  const std::string s = t[i].s;
  if (!binary) {
    i++;
    char *e; double v = strtod(s.c_str(), &e);
    if (*e) { why = "'" + s + "' is not a number"; return false; }
    if (x != x) { if (v == v) { why = s + " for a NaN"; return false; } return true; }
    if (std::isinf(x) || x == 0) { if (v != x || std::signbit(v) != std::signbit(x)) { why = s + " for " + hex(x); return false; } return true; }
    // six significant digits
    bool ok = std::signbit(v) == std::signbit(x) && std::fabs(v - x) <= std::fabs(x) * 5.1e-6;
    if (std::isinf(v)) ok = std::signbit(v) == std::signbit(x) && std::fabs(x) >= 1.79769e308; // 1.79769e+308 is below the largest double
    if (std::fabs(x) < 1e-306) ok = std::signbit(v) == std::signbit(x) && std::fabs(v - x) <= std::fabs(x) * 5.1e-6 + 0x1p-1074;
    if (!ok) why = s + " for " + hex(x);
    return ok;
  }
  if (s.size() > 1 && (s.substr(1) == "inf" || s.substr(1) == "nan")) {
    i++;
    bool nan = s.substr(1) == "nan";
    bool ok = nan ? x != x : (std::isinf(x) && (s[0] == '-') == std::signbit(x) && (s[0] == '-' || s[0] == '+'));
    if (!ok) why = s + " for " + hex(x);
    return ok;
  }
  if (i + 2 >= t.size() || t[i + 1].s != "x" || t[i + 2].s.substr(0, 2) != "2^") { why = "'" + s + "' does not start a binary value"; return false; }
  std::string es = t[i + 2].s.substr(2);
  i += 3;
  if (s.size() < 4 || (s[0] != '+' && s[0] != '-') || (s[1] != '0' && s[1] != '1') || s[2] != '.') { why = "'" + s + "' is not a mantissa"; return false; }
  char *e; long ex = strtol(es.c_str(), &e, 10);
  if (*e || es.empty()) { why = "'" + es + "' is not an exponent"; return false; }
  // exact value
  unsigned __int128 m = s[1] - '0';
  size_t nb = s.size() - 3;
  if (nb > 60) { why = "mantissa too long"; return false; }
  for (size_t k = 3; k < s.size(); k++) { if (s[k] != '0' && s[k] != '1') { why = "'" + s + "' is not a mantissa"; return false; } m = m * 2 + (s[k] - '0'); }
  std::string full = s + " x 2^" + es;
  if (x != x || std::isinf(x)) { why = full + " for " + hex(x); return false; }
  double v = std::ldexp((double)(uint64_t)m, (int)(ex - (long)nb)); // m < 2^53 here for a right answer
  if (s[0] == '-') v = -v;
  if (!same(v, x) || (uint64_t)m >> 54) { why = full + " for " + hex(x); return false; }
  bool sub = x != 0 && std::fabs(x) < (dbl ? 0x1p-1022 : 0x1p-126);
  char lead = x == 0 ? '0' : sub && !norm ? '0' : '1';
  if (s[1] != lead) { why = full + " for " + hex(x) + (sub ? (norm ? ": subnormals were to be normalized" : ": subnormals were to be left denormalized") : ""); return false; }
  if (lead == '0' && x != 0 && ex != (dbl ? -1022 : -126)) { why = full + ": not the exponent of the subnormals"; return false; }
  return true;
}
static bool word(const std::vector<Tok> &t, size_t &i, const std::string &w, std::string &why) {
  if (i >= t.size() || t[i].s != w) { why = "'" + (i < t.size() ? t[i].s : std::string("nothing")) + "' instead of '" + w + "'"; return false; }
  i++;
  return true;
}
static bool body(const std::vector<Tok> &t, const Rec &r, bool binary, const Opts &o, std::string &why, std::vector<int> &lines) {
  size_t i = 0;
  bool fr = r.op == CAST ? false : r.dbl;
#define V(x, d) { if (i < t.size()) lines.push_back(t[i].line); if (!value(t, i, binary, d, o.p, x, why)) return false; }
#define W(w) if (!word(t, i, w, why)) return false;
  V(r.a, r.dbl)
  switch (r.op) {
  case CMP: W(std::string("[FCMP_") + PRED[r.p] + "]") V(r.b, r.dbl) W("->") W(r.truth ? "true" : "false") break;
  case CAST: W("(float)") W("->") V(r.r, fr) break;
  case FMA: W("*") V(r.b, r.dbl) W("+") V(r.c, r.dbl) W("->") V(r.r, fr) break;
  default: W(SYM[r.op]) V(r.b, r.dbl) W("->") V(r.r, fr) break;
  }
  if (i != t.size()) { why = "unexpected '" + t[i].s + "'"; return false; }
  return true;
}
static std::string describe(const Rec &r) {
  static const char *N[] = {"add", "sub", "mul", "div", "cmp", "cast", "fma"};
  return std::string(N[r.op]) + (r.op == CMP ? std::string(" ") + PRED[r.p] : "") + (r.dbl ? " binary64 " : " binary32 ") + hex(r.a) + " " + hex(r.b) + (r.op == FMA ? " " + hex(r.c) : "");
}
static void judge(const Rec &r, const std::string &s, const Opts &o) {
  R.transitions++; R.traces++;
  auto bad = [&](const std::string &w) { R.violation("ieee backend, options '" + o.name + "', " + describe(r) + ": " + w + "; trace: " + s); };
  if (!o.d && !o.b) { if (!s.empty()) bad("a trace although none was asked for"); return; }
  R.nontrivial++;
  if (s.empty() || s.back() != '\n') return bad("the record is missing or has no end of line");
  size_t nl = 0, heads = 0;
  for (char c : s) nl += c == '\n';
  for (size_t p = s.find("interflop-ieee"); p != std::string::npos; p = s.find("interflop-ieee", p + 1)) heads++;
  if (heads != (o.s ? 0u : 1u)) return bad(o.s ? "the backend name is printed in spite of --no-backend-name" : "the backend name is missing or repeated");
  std::string b = s;
  if (!o.s) {
    size_t p = s.find("Binary "), q = s.find("Decimal ");
    size_t at = p != std::string::npos ? p + 7 : q != std::string::npos ? q + 8 : 0;
    if (!at) return bad("no header");
    if (!(o.d && o.b) && (p != std::string::npos) != o.b) return bad("the header names the wrong format");
    b = s.substr(at);
  }
  auto t = split(b);
  std::string why, why2; std::vector<int> lines, l2;
  bool ok = body(t, r, o.b && !o.d, o, why, lines);
  if (!ok && o.d && o.b) { ok = body(t, r, true, o, why2, l2); lines = l2; }
  if (!ok) return bad(why);
  if (!o.n && nl != 1) return bad("more than one line");
  if (o.n) for (size_t i = 1; i < lines.size(); i++) if (lines[i] == lines[i - 1]) return bad("values on one line in spite of --print-new-line");
}

static Opts g_o;
static void flush() {
  std::string s = drain();
  size_t at = 0, k = 0;
  for (; k < g_recs.size(); k++) {
    size_t e = s.find('\x01', at);
    if (e == std::string::npos) { fprintf(stderr, "HARNESS: marker lost\n"); _exit(3); }
    judge(g_recs[k], s.substr(at, e - at), g_o);
    at = e + 1;
  }
  if (at != s.size()) R.violation("options '" + g_o.name + "': text after the last operation: " + s.substr(at));
  g_recs.clear();
}
static void put(const Rec &r) {
  fputc('\x01', stderr);
  g_recs.push_back(r);
  if (g_recs.size() >= 2000) flush();
}

template <class T> static std::vector<T> values(int every);
template <> std::vector<float> values<float>(int every) {
  std::vector<float> v;
  const uint32_t M[] = {0, 1, 0x400000, 0x7fffff, 0x555555, 0x2aaaaa, 0x400001, 0x7ffffe, 0x000100};
  for (int e = 0; e < 256; e += (e < 4 || e > 250 || (e > 122 && e < 132)) ? 1 : every) {
    for (uint32_t m : M) for (uint32_t s : {0u, 1u}) v.push_back(ff(s << 31 | (uint32_t)e << 23 | m));
  }
  for (int e : {0, 1, 127, 254})
    for (int k = 0; k < 23; k++) { v.push_back(ff((uint32_t)e << 23 | 1u << k)); v.push_back(ff((uint32_t)e << 23 | ((1u << k) - 1))); v.push_back(ff(1u << 31 | (uint32_t)e << 23 | (0x7fffffu & ~((1u << k) - 1)))); }
  return v;
}
template <> std::vector<double> values<double>(int every) {
  std::vector<double> v;
  const uint64_t M[] = {0, 1, 0x8000000000000, 0xfffffffffffff, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x8000000000001, 0x0000010000000};
  for (int e = 0; e < 2048; e += (e < 4 || e > 2043 || (e > 1018 && e < 1028)) ? 1 : every * 7) {
    for (uint64_t m : M) for (uint64_t s : {0ull, 1ull}) v.push_back(dd(s << 63 | (uint64_t)e << 52 | m));
  }
  for (int e : {0, 1, 1023, 2046})
    for (int k = 0; k < 52; k++) { v.push_back(dd((uint64_t)e << 52 | 1ull << k)); v.push_back(dd((uint64_t)e << 52 | ((1ull << k) - 1))); v.push_back(dd(1ull << 63 | (uint64_t)e << 52 | (0xfffffffffffffull & ~((1ull << k) - 1)))); }
  return v;
}
template <class T> static bool truth(int p, T a, T b) {
  bool un = a != a || b != b;
  switch (p) {
  case FCMP_FALSE: return false; case FCMP_OEQ: return !un && a == b; case FCMP_OGT: return !un && a > b; case FCMP_OGE: return !un && a >= b;
  case FCMP_OLT: return !un && a < b; case FCMP_OLE: return !un && a <= b; case FCMP_ONE: return !un && a != b; case FCMP_ORD: return !un;
  case FCMP_UNO: return un; case FCMP_UEQ: return un || a == b; case FCMP_UGT: return un || a > b; case FCMP_UGE: return un || a >= b;
  case FCMP_ULT: return un || a < b; case FCMP_ULE: return un || a <= b; case FCMP_UNE: return un || a != b;
  }
  return true;
}
template <class T> static void ops(Backend &B, int every) {
  constexpr bool D = sizeof(T) == 8;
  auto v = values<T>(every);
  std::vector<T> w = {(T)0, (T)-1, (T)3, std::numeric_limits<T>::denorm_min() * 5, -std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), (T)0.1};
  uint64_t n = 0;
  auto bin = [&](Op op, T a, T b) {
    T c = 0;
    if constexpr (D) (op == ADD ? B.v.add_d : op == SUB ? B.v.sub_d : op == MUL ? B.v.mul_d : B.v.div_d)(a, b, &c, B.ctx);
    else (op == ADD ? B.v.add_f : op == SUB ? B.v.sub_f : op == MUL ? B.v.mul_f : B.v.div_f)(a, b, &c, B.ctx);
    put({op, 0, D, (double)a, (double)b, 0, (double)c, false});
  };
  auto cmp = [&](int p, T a, T b) {
    int c = 0;
    if constexpr (D) B.v.cmp_d(p, a, b, &c, B.ctx); else B.v.cmp_f(p, a, b, &c, B.ctx);
    put({CMP, p, D, (double)a, (double)b, 0, 0, truth(p, a, b)});
  };
  auto fma = [&](T a, T b, T c) {
    T r = 0;
    if constexpr (D) B.v.fma_d(a, b, c, &r, B.ctx); else B.v.fma_f(a, b, c, &r, B.ctx);
    put({FMA, 0, D, (double)a, (double)b, (double)c, (double)r, false});
  };
  for (T a : v)
    for (T b : w) {
      if ((int)(n++ % g_nshards) != g_shard) continue;
      R.states++;
      for (Op op : {ADD, SUB, MUL, DIV}) { bin(op, a, b); if (op != ADD && op != MUL) bin(op, b, a); }
      cmp(n % 16, a, b); cmp((n * 7 + 3) % 16, b, a);
      if (n % 3 == 0) { fma(a, b, (T)3); fma((T)-1, a, b); fma(b, w[n % w.size()], a); }
      if constexpr (D) { float r = 0; B.v.cast(a, &r, B.ctx); put({CAST, 0, true, a, 0, 0, (double)r, false}); }
    }
  for (T a : w) for (T b : w) {
    if ((int)(n++ % g_nshards) != g_shard) continue;
    R.states++;
    for (int p = 0; p < 16; p++) { cmp(p, a, b); cmp(p, b, a); }
    for (T c : w) fma(a, b, c);
  }
}

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  g_prefix = argv[1]; g_shard = atoi(argv[2]); g_nshards = atoi(argv[3]); g_thorough = !strcmp(argv[4], "thorough");
  setenv("VFC_BACKENDS_SILENT_LOAD", "True", 1);
  g_fd = memfd_create("err", 0);
  int save = dup(2);
  dup2(g_fd, 2);
  static char buf[1 << 20];
  setvbuf(stderr, buf, _IOFBF, sizeof buf);
  watchdog(&R.states, &R.transitions);
  const char *N[] = {"--debug", "--debug-binary", "--print-new-line", "--print-subnormal-normalized", "--no-backend-name", "--count-op"};
  for (int m = 0; m < 64; m++) {
    std::vector<std::string> a; std::string nm;
    for (int k = 0; k < 6; k++) if (m >> k & 1) { a.push_back(N[k]); nm += (nm.empty() ? "" : " ") + std::string(N[k]); }
    g_o = {(bool)(m & 1), (bool)(m & 2), (bool)(m & 4), (bool)(m & 8), (bool)(m & 16), (bool)(m & 32), nm};
    Backend B = load_backend("ieee", a);
    if (!drain().empty()) { R.violation("options '" + nm + "': text at start although VFC_BACKENDS_SILENT_LOAD is set"); }
    int every = g_thorough ? 1 : ((m & 3) && !(m & 32)) ? 2 : 30;
    ops<float>(B, every); ops<double>(B, every);
    flush();
    R.counters["option sets"]++;
  }
  dup2(save, 2);
  R.print();
  return 0;
}
