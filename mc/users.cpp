// C10: all sequences of user calls (up to a depth) on the real vprec and mca backends; after
// each call the operations must behave as in a backend started with the settings in force.
#include "backend.hpp"
#include <quadmath.h>
#include <sstream>
typedef __float128 F128;
static int shard, nshards;
static bool thorough;
enum { INEXACT = 1, P32 = 2, P64 = 3, R32 = 4, R64 = 5, CUSTOM = -1 };
static std::vector<float> FV = {0.f, -0.f, 1.f, 1.3f, -0.1f, 3.1415927f, 65519.f, -1e-5f, 1e-30f, 0x1p-149f, 0x1.fffffep127f, INFINITY, NAN, 0x1.000002p0f, 240.f, 1.0625f};
static std::vector<double> DV = {0., -0., 1., 1.3, -0.1, 3.141592653589793, 65519., -1e-5, 1e-300, 0x1p-1074, 0x1.fffffffffffffp1023, INFINITY, NAN, 0x1.0000000000001p0, 1e30, 1.0625};
static std::vector<uint64_t> DR = {0x8000000000000000ull, 0, 0xffffffffffffffffull, 0x3123456789abcdefull, 0xc000000000000000ull};
static size_t drawpos;

// observable behaviour: every operation on the grid, as a string of bits
static void fp(Backend &b, std::vector<uint64_t> &o) {
  float r; double q;
  o.clear();
  for (size_t i = 0; i < FV.size(); i++) for (size_t j = 0; j < FV.size(); j += 1 + (i & 1)) {
    float x = FV[i], y = FV[j];
#define F1(op) g_draws.choice = {(int)((i + j) % DR.size()), (int)((i * 3 + j) % DR.size()), (int)((i + 2 * j + 1) % DR.size()), 1, 2, 3, 4}; g_draws.begin(); r = 0; b.v.op(x, y, &r, b.ctx); o.push_back(r != r ? 1 : bits(r));
    F1(add_f) F1(sub_f) F1(mul_f) F1(div_f)
    g_draws.begin(); r = 0; b.v.fma_f(x, y, FV[(i + j) % FV.size()], &r, b.ctx); o.push_back(r != r ? 1 : bits(r));
  }
  for (size_t i = 0; i < DV.size(); i++) for (size_t j = 0; j < DV.size(); j += 1 + (i & 1)) {
    double x = DV[i], y = DV[j];
#define D1(op) g_draws.choice = {(int)((i + j) % DR.size()), (int)((i * 3 + j) % DR.size()), (int)((i + 2 * j + 1) % DR.size()), 1, 2, 3, 4}; g_draws.begin(); q = 0; b.v.op(x, y, &q, b.ctx); o.push_back(q != q ? 1 : bits(q));
    D1(add_d) D1(sub_d) D1(mul_d) D1(div_d)
    g_draws.begin(); q = 0; b.v.fma_d(x, y, DV[(i + j) % DV.size()], &q, b.ctx); o.push_back(q != q ? 1 : bits(q));
  }
  for (size_t i = 0; i < DV.size(); i++) { g_draws.choice = {(int)(i % DR.size()), 1, 2, 3}; g_draws.begin(); r = 0; b.v.cast(DV[i], &r, b.ctx); o.push_back(r != r ? 1 : bits(r)); }
}
struct Set { int p32, p64, r32, r64; bool operator<(const Set &s) const { return std::tie(p32, p64, r32, r64) < std::tie(s.p32, s.p64, s.r32, s.r64); } };
static std::string str(const Set &s) { std::ostringstream o; o << "p32=" << s.p32 << " p64=" << s.p64 << " r32=" << s.r32 << " r64=" << s.r64; return o.str(); }
struct Base { std::string be; std::vector<std::string> opt; Set start; bool explicit_start; };
struct Call { int id, v; };
static const char *nm(int id) { return id == P32 ? "set_precision_binary32" : id == P64 ? "set_precision_binary64" : id == R32 ? "set_range_binary32" : id == R64 ? "set_range_binary64" : id == INEXACT ? "inexact" : "custom"; }

static Backend fresh(const Base &b, const Set &s) {
  std::vector<std::string> a = b.opt;
  a.push_back("--precision-binary32=" + std::to_string(s.p32));
  a.push_back("--precision-binary64=" + std::to_string(s.p64));
  if (b.be == "vprec") { a.push_back("--range-binary32=" + std::to_string(s.r32)); a.push_back("--range-binary64=" + std::to_string(s.r64)); }
  return load_backend(b.be, a);
}
static void inexact_checks(Backend &be, const Set &s, const std::string &trace, bool ieee);
static void sequences(const Base &base, const std::vector<Call> &al, int depth) {
  std::map<Set, std::vector<uint64_t>> ref;
  std::set<Set> seen;
  auto want = [&](const Set &s) -> const std::vector<uint64_t> & {
    auto &v = ref[s];
    if (v.empty()) { Backend f = fresh(base, s); fp(f, v); }
    return v;
  };
  std::vector<int> seq(depth, 0);
  int w = 0;
  for (size_t first = 0; first < al.size(); first++) {
    if (w++ % nshards != shard) continue;
    std::fill(seq.begin(), seq.end(), 0);
    seq[0] = first;
    for (;;) {
      Backend b = base.explicit_start ? fresh(base, base.start) : load_backend(base.be, base.opt);
      Set s = base.start;
      std::string trace = base.be; for (auto &o : base.opt) trace += " " + o;
      trace += base.explicit_start ? " started with " + str(s) : "";
      std::vector<uint64_t> got;
      R.traces++;
      for (int d = 0; d < depth; d++) {
        const Call &c = al[seq[d]];
        trace += std::string("; ") + nm(c.id) + "(" + std::to_string(c.v) + ")";
        if (c.id == INEXACT) {
          float f[3] = {1.5f, 2.75f, -3.f}; double g[3] = {1.5, 2.75, -3.};
          g_draws.choice = {1}; g_draws.begin();
          if (c.v & 1) b.user(INEXACT, 0, &f[1], c.v); else b.user(INEXACT, 1, &g[1], c.v);
          if (f[0] != 1.5f || f[2] != -3.f || g[0] != 1.5 || g[2] != -3. || ((c.v & 1) ? g[1] != 2.75 : f[1] != 2.75f)) R.violation(trace + ": inexact changed memory it was not given");
        } else if (c.id == CUSTOM) b.user(CUSTOM, c.v);
        else b.user(c.id, c.v);
        if (c.id == P32) s.p32 = c.v;
        if (c.id == P64) s.p64 = c.v;
        if (c.id == R32 && base.be == "vprec") s.r32 = c.v;
        if (c.id == R64 && base.be == "vprec") s.r64 = c.v;
        R.transitions++;
        fp(b, got);
        const auto &w = want(s);
        if (seen.insert(s).second) R.states++;
        if (got != w) {
          size_t k = 0; while (got[k] == w[k]) k++;
          std::ostringstream o; o << trace << ": operation " << k << " of the grid gives " << std::hex << got[k] << ", a backend started with " << str(s) << " gives " << w[k];
          R.violation(o.str());
          break;
        }
      }
      R.nontrivial++;
      if (R.traces % 997 == 1) R.sample(trace);
      if (R.nviol > 20) return;
      free(b.ctx);
      int d = depth - 1;
      while (d > 0 && ++seq[d] == (int)al.size()) seq[d--] = 0;
      if (d == 0) break;
    }
  }
}

template <class T, class X> static void law(Backend &b, int ty, int cur, bool ieee, const std::string &cfg, const std::vector<T> &V) {
  for (T x : V) for (int p = -(cur - 1); p <= 60; p++) for (size_t k = 0; k < DR.size(); k++) {
    T buf[3] = {(T)7.25, x, (T)-9.5};
    g_draws.choice = {(int)k}; g_draws.begin();
    b.user(INEXACT, ty, &buf[1], p);
    int t = p <= 0 ? cur + p : p;
    T want = x;
    if (!ieee && x == x && x != 0 && !std::isinf(x)) {
      X X0 = (X)x;
      int e; { double dx = (double)x; e = ilogb(dx); }
      X n = (X)u01(DR[k]) - (X)0.5;
      X sc = sizeof(X) == 16 ? (X)ldexpq((F128)n, e - t + 1) : (X)ldexp((double)n, e - t + 1);
      want = (T)(X0 + sc);
    }
    R.states++; R.transitions++;
    if (want != x) R.nontrivial++;
    if (!same(buf[1], want) || buf[0] != (T)7.25 || buf[2] != (T)-9.5) {
      std::ostringstream o; o << cfg << ": inexact(" << (ty ? "double " : "float ") << hex(x) << ", " << p << ") with draw " << std::hex << DR[k] << " gives " << hex(buf[1]) << ", expected " << hex(want) << (buf[0] != (T)7.25 || buf[2] != (T)-9.5 ? "; it changed a neighbour" : "");
      R.violation(o.str());
      if (R.nviol > 20) return;
    }
  }
}
int main(int argc, char **argv) {
  g_prefix = argv[1]; shard = atoi(argv[2]); nshards = atoi(argv[3]); thorough = !strcmp(argv[4], "thorough");
  if (!freopen("/dev/null", "w", stderr)) return 3;
  watchdog(&R.states, &R.transitions);
  g_draws.alphabet = DR;
  int depth = thorough ? 4 : 3;
  Set dv{23, 52, 8, 11};
  std::vector<Call> al;
  for (int p : {1, 5, 23}) al.push_back({P32, p});
  for (int p : {1, 10, 52}) al.push_back({P64, p});
  for (int r : {2, 5, 8}) al.push_back({R32, r});
  for (int r : {2, 6, 11}) al.push_back({R64, r});
  sequences({"vprec", {}, dv, false}, al, depth);
  for (auto m : {"ib", "full"}) sequences({"vprec", {std::string("--mode=") + m}, {10, 20, 5, 8}, true}, al, depth - (thorough ? 1 : 1));
  sequences({"vprec", {"--mode=full", "--daz", "--ftz"}, {7, 12, 4, 6}, true}, al, depth - 1);
  sequences({"vprec", {"--error-mode=abs", "--max-abs-error-exponent=-10"}, {7, 12, 4, 6}, true}, al, depth - 1);
  sequences({"vprec", {"--error-mode=all", "--max-abs-error-exponent=-10"}, {7, 12, 4, 6}, true}, al, depth - 1);
  // every single value of each parameter, from the default settings
  std::vector<Call> one;
  for (int p = 1; p <= 23; p++) one.push_back({P32, p});
  for (int p = 1; p <= 52; p++) one.push_back({P64, p});
  for (int r = 2; r <= 8; r++) one.push_back({R32, r});
  for (int r = 2; r <= 11; r++) one.push_back({R64, r});
  sequences({"vprec", {}, dv, false}, one, thorough ? 2 : 1);
  Set dm{24, 53, 0, 0};
  al.clear();
  for (int p : {1, 7, 24, 40}) al.push_back({P32, p});
  for (int p : {1, 20, 53, 70}) al.push_back({P64, p});
  for (int p : {-3, 0, 5, 12}) al.push_back({INEXACT, p});
  al.push_back({CUSTOM, 3});
  al.push_back({R32, 4}); al.push_back({R64, 4});
  sequences({"mca", {"--seed=1"}, dm, false}, al, depth);
  for (auto m : {"ieee", "pb", "rr"}) sequences({"mca", {std::string("--mode=") + m, "--seed=1"}, {12, 33, 0, 0}, true}, al, depth - 1);
  sequences({"mca", {"--error-mode=all", "--max-abs-error-exponent=-20"}, {12, 33, 0, 0}, true}, al, depth - 1);
  sequences({"mca", {"--daz", "--ftz"}, {12, 33, 0, 0}, true}, al, depth - 1);
  one.clear();
  for (int p = 1; p <= 60; p++) { one.push_back({P32, p}); one.push_back({P64, p}); }
  sequences({"mca", {"--mode=rr"}, dm, false}, one, 1);
  // the law of inexact, in every mode and precision
  int w = 0;
  for (auto m : {"ieee", "mca", "pb", "rr"}) for (int t : {2, 10, 24, 53}) {
    if (w++ % nshards != shard) continue;
    std::vector<std::string> a = {std::string("--mode=") + m, "--precision-binary32=" + std::to_string(t), "--precision-binary64=" + std::to_string(t)};
    if (w & 1) a.push_back("--sparsity=0.5");
    Backend b = load_backend("mca", a);
    std::string cfg = "mca"; for (auto &x : a) cfg += " " + x;
    bool ieee = !strcmp(m, "ieee");
    law<float, double>(b, 0, t, ieee, cfg, FV);
    law<double, F128>(b, 1, t, ieee, cfg, DV);
    b.user(P32, 9); b.user(P64, 17);
    law<float, double>(b, 0, 9, ieee, cfg + " then set_precision_binary32(9)", {1.f, 0.1f, -3.f});
    law<double, F128>(b, 1, 17, ieee, cfg + " then set_precision_binary64(17)", {1., 0.1, -3.});
  }
  R.print();
  return 0;
}
