// Exhaustive bounded exploration of the arithmetic backends (C01..C07):
// every operand tuple of the alphabet x every option set of the grid x every
// sequence of random draws over the draw alphabet, on the real shared objects.
#include "backend.hpp"
#include <quadmath.h>
typedef _Float128 F128;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op { ADD, SUB, MUL, DIV, FMA, CAST };
static const char *OPN[] = {"add", "sub", "mul", "div", "fma", "cast"};
static int g_shard = 0, g_nshards = 1;
static bool g_thorough = false;
static uint64_t g_work = 0;
// one block of work = one history of operations on one loaded backend, checked at every step
static bool mine() {
  bool m = (int)(g_work++ % g_nshards) == g_shard;
  if (m) R.traces++;
  return m;
}

template <class T> T call(Backend &b, int op, T a, T y, T c);
template <> float call<float>(Backend &b, int op, float a, float y, float c) {
  float r = 0;
  switch (op) {
  case ADD: b.v.add_f(a, y, &r, b.ctx); break;
  case SUB: b.v.sub_f(a, y, &r, b.ctx); break;
  case MUL: b.v.mul_f(a, y, &r, b.ctx); break;
  case DIV: b.v.div_f(a, y, &r, b.ctx); break;
  case FMA: b.v.fma_f(a, y, c, &r, b.ctx); break;
  }
  return r;
}
template <> double call<double>(Backend &b, int op, double a, double y, double c) {
  double r = 0;
  switch (op) {
  case ADD: b.v.add_d(a, y, &r, b.ctx); break;
  case SUB: b.v.sub_d(a, y, &r, b.ctx); break;
  case MUL: b.v.mul_d(a, y, &r, b.ctx); break;
  case DIV: b.v.div_d(a, y, &r, b.ctx); break;
  case FMA: b.v.fma_d(a, y, c, &r, b.ctx); break;
  }
  return r;
}
static float call_cast(Backend &b, double a) { float r = 0; b.v.cast(a, &r, b.ctx); return r; }

static float fmaT(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
static double fmaT(double a, double b, double c) { return __builtin_fma(a, b, c); }
static F128 fmaT(F128 a, F128 b, F128 c) { return fmaq(a, b, c); }
template <class T> T native(int op, T a, T b, T c) {
  switch (op) {
  case ADD: return a + b;
  case SUB: return a - b;
  case MUL: return a * b;
  case DIV: return a / b;
  default: return fmaT(a, b, c);
  }
}

// ---------------------------------------------------------------- alphabets
static std::vector<float> small_f() {
  std::vector<float> v = {0.0f, 0x1p-149f, 0x5p-149f, 0x1p-127f, 0x1.fffffcp-127f, 0x1p-126f, 0x1.8p-100f,
    0x1.555556p-2f, 0.1f, 0x1.fffffep-1f, 1.0f, 0x1.000002p0f, 0x1.6p0f, 0x1.fffffep0f, 0x1.5555aap1f, 3.0f, 0x1.921fb6p1f,
    0x1.000002p24f, 0x1.234568p60f, 0x1p127f, 0x1.fffffep127f, INFINITY};
  size_t n = v.size();
  for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
  v.push_back(NAN);
  return v;
}
static std::vector<double> small_d() {
  std::vector<double> v = {0.0, 0x1p-1074, 0x5p-1074, 0x1p-1023, 0x1.ffffffffffffep-1023, 0x1p-1022, 0x1.8p-900,
    0x1.5555555555555p-2, 0.1, 0x1.fffffffffffffp-1, 1.0, 0x1.0000000000001p0, 0x1.6p0, 0x1.fffffffffffffp0, 0x1.55555555555aap1, 3.0,
    0x1.921fb54442d18p1, 0x1.0000000000001p53, 0x1.123456789abcdp500, 0x1p1023, 0x1.fffffffffffffp1023, INFINITY,
    0x1.fffffefp127, 0x1.8p-149, 0x1.234567p-130};
  size_t n = v.size();
  for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
  v.push_back(NAN);
  return v;
}
template <class T> std::vector<T> small();
template <> std::vector<float> small<float>() { return small_f(); }
template <> std::vector<double> small<double>() { return small_d(); }
// fewer, for the enumerations with many draws
template <class T> std::vector<T> tiny();
template <> std::vector<float> tiny<float>() {
  return {0.0f, -0.0f, 0x5p-149f, -0x1.fffffcp-127f, 0x1p-126f, 1.0f, -0x1.6p0f, 0x1.555556p-2f, 0x1.fffffep0f, -3.0f, 0x1.000002p24f, 0x1.fffffep127f, -INFINITY, NAN};
}
template <> std::vector<double> tiny<double>() {
  return {0.0, -0.0, 0x5p-1074, -0x1.ffffffffffffep-1023, 0x1p-1022, 1.0, -0x1.6p0, 0x1.5555555555555p-2, 0x1.fffffffffffffp0, -3.0, 0x1.0000000000001p53, 0x1.fffffffffffffp1023, -INFINITY, NAN};
}
// a structured grid: exponents x mantissa patterns x signs
static std::vector<float> grid_f(int every) {
  std::vector<float> v;
  std::vector<uint32_t> m = {0, 1, 2, 3, 0x7ffffe, 0x7fffff, 0x400000, 0x400001, 0x3fffff, 0x000800, 0x0007ff, 0x000801, 0x555555, 0x2aaaaa, 0x123456, 0x001000};
  for (int e = 0; e < 256; e++) {
    if (!(e <= 3 || e >= 252 || (e >= 124 && e <= 130) || e % every == 0)) continue;
    for (auto x : m) for (int s = 0; s < 2; s++) v.push_back(ff((uint32_t)s << 31 | (uint32_t)e << 23 | x));
  }
  return v;
}
static std::vector<double> grid_d(int every) {
  std::vector<double> v;
  std::vector<uint64_t> m = {0, 1, 2, 3, 0xffffffffffffeull, 0xfffffffffffffull, 0x8000000000000ull, 0x8000000000001ull, 0x7ffffffffffffull,
     0x0000004000000ull, 0x0000003ffffffull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0x123456789abcdull, 0x0000010000000ull, 0x0000030000000ull};
  for (int e = 0; e < 2048; e++) {
    if (!(e <= 2 || e >= 2045 || (e >= 1021 && e <= 1025) || (e >= 1023 - 151 && e <= 1023 - 125 && every < 60) || e % every == 0)) continue;
    for (auto x : m) for (int s = 0; s < 2; s++) v.push_back(dd((uint64_t)s << 63 | (uint64_t)e << 52 | x));
  }
  return v;
}
template <class T> std::vector<T> grid(int every);
template <> std::vector<float> grid<float>(int e) { return grid_f(e); }
template <> std::vector<double> grid<double>(int e) { return grid_d(e * 8); }

static std::string cfgstr(const std::string &be, const std::vector<std::string> &a) {
  std::string s = be;
  for (auto &x : a) s += " " + x;
  return s;
}
template <class T> std::string tn() { return sizeof(T) == 4 ? "float" : "double"; }
static std::string drawstr() {
  std::string s = "[";
  for (size_t i = 0; i < g_draws.pos; i++) { char b[32]; snprintf(b, 32, "%s%016lx", i ? "," : "", g_draws.alphabet[g_draws.choice[i]]); s += b; }
  return s + "]";
}
template <class T>
static std::string casestr(const std::string &cfg, int op, T a, T b, T c, T got, T want, bool draws = false) {
  std::string s = "{" + cfg + "} " + tn<T>() + " " + OPN[op] + "(" + hex(a) + (op == CAST ? "" : "," + hex(b)) + (op == FMA ? "," + hex(c) : "") + ")";
  if (draws) s += " draws=" + drawstr();
  return s + " got " + hex(got) + " want " + hex(want);
}

// ---------------------------------------------------------------- C01
template <class T> static void c01_pairs(Backend &b, const std::string &cfg, const std::vector<T> &V) {
  for (int op = ADD; op <= DIV; op++) {
    if (!mine()) continue;
    for (T x : V) for (T y : V) {
      T got = call<T>(b, op, x, y, 0), want = native<T>(op, x, y, 0);
      R.transitions++; R.states++;
      if (want == want && want != 0 && std::isfinite(want)) R.nontrivial++;
      if (!same(got, want)) R.violation(casestr(cfg, op, x, y, (T)0, got, want));
    }
  }
  R.sample(casestr(cfg, ADD, V[3], V[7], (T)0, call<T>(b, ADD, V[3], V[7], 0), native<T>(ADD, V[3], V[7], 0)));
}
template <class T> static void c01_fma(Backend &b, const std::string &cfg, const std::vector<T> &V) {
  for (T x : V) {
    if (!mine()) continue;
    for (T y : V) for (T z : V) {
      T got = call<T>(b, FMA, x, y, z), want = fmaT(x, y, z);
      R.transitions++; R.states++;
      if (want == want && want != 0 && std::isfinite(want)) R.nontrivial++;
      if (!same(got, want)) R.violation(casestr(cfg, FMA, x, y, z, got, want));
    }
  }
}
template <class T> static std::vector<T> fma_set();
template <> std::vector<float> fma_set<float>() {
  auto v = small_f();
  for (float x : {0x1.001p0f, 0x1.002p0f, 0x1.000002p0f, 0x1.fffffep-1f, 0x1.ffep-1f, 0x1p-30f, 0x1p-60f, 0x1p-90f, 0x1.8p-24f, 0x1p-24f, 0x1p-25f, 0x1.554p0f, 0x1.aaap0f, 0x1p-75f, 0x1.8p-74f})
    { v.push_back(x); v.push_back(-x); }
  return v;
}
template <> std::vector<double> fma_set<double>() {
  auto v = small_d();
  for (double x : {0x1.000001p0, 0x1.0000008p0, 0x1.0000000000001p0, 0x1.fffffffffffffp-1, 0x1p-53, 0x1.8p-53, 0x1p-54, 0x1p-110, 0x1p-200, 0x1.000000cp0, 0x1p-537, 0x1.8p-537})
    { v.push_back(x); v.push_back(-x); }
  return v;
}
static bool truth(int p, double a, double b) {
  bool un = (a != a) || (b != b), eq = a == b, lt = a < b, gt = a > b;
  switch (p) {
  case FCMP_FALSE: return false;
  case FCMP_OEQ: return eq;
  case FCMP_OGT: return gt;
  case FCMP_OGE: return gt || eq;
  case FCMP_OLT: return lt;
  case FCMP_OLE: return lt || eq;
  case FCMP_ONE: return lt || gt;
  case FCMP_ORD: return !un;
  case FCMP_UNO: return un;
  case FCMP_UEQ: return un || eq;
  case FCMP_UGT: return un || gt;
  case FCMP_UGE: return un || gt || eq;
  case FCMP_ULT: return un || lt;
  case FCMP_ULE: return un || lt || eq;
  case FCMP_UNE: return un || lt || gt;
  default: return true;
  }
}
static void c01_cmp(Backend &b, const std::string &cfg) {
  for (int p = 0; p < 16; p++) {
    if (!mine()) continue;
    auto F = small_f();
    if (b.v.cmp_f) for (float x : F) for (float y : F) {
      int c = 77;
      b.v.cmp_f(p, x, y, &c, b.ctx);
      R.transitions++; R.states++; R.nontrivial++;
      if ((c != 0) != truth(p, x, y) || c == 77)
        R.violation("{" + cfg + "} float cmp predicate " + std::to_string(p) + "(" + hex(x) + "," + hex(y) + ") got " + std::to_string(c) + " want " + std::to_string(truth(p, x, y)));
    }
    auto D = small_d();
    if (b.v.cmp_d) for (double x : D) for (double y : D) {
      int c = 77;
      b.v.cmp_d(p, x, y, &c, b.ctx);
      R.transitions++; R.states++; R.nontrivial++;
      if ((c != 0) != truth(p, x, y) || c == 77)
        R.violation("{" + cfg + "} double cmp predicate " + std::to_string(p) + "(" + hex(x) + "," + hex(y) + ") got " + std::to_string(c) + " want " + std::to_string(truth(p, x, y)));
    }
  }
}
static std::vector<double> cast_set() {
  std::vector<double> v = small_d();
  for (float f : grid_f(5)) {
    if (!std::isfinite(f)) continue;
    double d = f, n = ff(bits(f) + 1);
    double mid = std::isfinite(n) ? d / 2 + n / 2 : d * (1 + 0x1p-25);
    for (double x : {d, mid, nextafter(mid, d), nextafter(mid, INFINITY), nextafter(mid, -INFINITY), nextafter(d, INFINITY), nextafter(d, -INFINITY)}) v.push_back(x);
  }
  return v;
}
static void c01_cast(Backend &b, const std::string &cfg) {
  if (!mine()) return;
  for (double x : cast_set()) {
    float got = call_cast(b, x), want = (float)x;
    R.transitions++; R.states++; R.nontrivial++;
    if (!same(got, want)) R.violation("{" + cfg + "} cast(" + hex(x) + ") got " + hex(got) + " want " + hex(want));
  }
}
static void c01() {
  struct C { std::string be; std::vector<std::string> a; bool noisy; };
  std::vector<C> cs = {
    {"ieee", {}, false}, {"ieee", {"--count-op"}, false},
    {"mca", {"--mode=ieee"}, false}, {"mca_int", {"--mode=ieee"}, false}, {"bitmask", {"--mode=ieee"}, false}, {"vprec", {"--mode=ieee"}, false},
    {"mca", {"--mode=ieee", "--precision-binary32=3", "--precision-binary64=4", "--error-mode=all", "--max-abs-error-exponent=5"}, false},
    {"mca_int", {"--mode=ieee", "--precision-binary32=24", "--precision-binary64=53", "--sparsity=0.5"}, false},
    {"bitmask", {"--mode=ieee", "--precision-binary32=3", "--precision-binary64=4", "--operator=one"}, false},
    {"vprec", {"--mode=ieee", "--precision-binary32=3", "--precision-binary64=4", "--range-binary32=3", "--range-binary64=3"}, false},
    {"ieee", {"--debug"}, true}, {"ieee", {"--debug-binary"}, true}, {"ieee", {"--debug", "--print-new-line"}, true},
    {"ieee", {"--debug-binary", "--print-subnormal-normalized"}, true}, {"ieee", {"--debug", "--no-backend-name", "--count-op"}, true},
    {"ieee", {"--debug-binary", "--print-new-line", "--no-backend-name", "--print-subnormal-normalized", "--count-op"}, true},
  };
  auto GF = grid<float>(g_thorough ? 2 : 24);
  auto GD = grid<double>(g_thorough ? 3 : 24);
  for (auto &c : cs) {
    Backend b = load_backend(c.be, c.a);
    std::string s = cfgstr(c.be, c.a);
    if (c.noisy) {
      c01_pairs<float>(b, s, tiny<float>());
      c01_pairs<double>(b, s, tiny<double>());
      c01_fma<float>(b, s, tiny<float>());
      c01_fma<double>(b, s, tiny<double>());
      c01_cmp(b, s);
    } else {
      c01_pairs<float>(b, s, GF);
      c01_pairs<double>(b, s, GD);
      c01_fma<float>(b, s, fma_set<float>());
      c01_fma<double>(b, s, fma_set<double>());
      c01_cmp(b, s);
      c01_cast(b, s);
    }
  }
  if (g_draws.total) R.counters["draws_in_ieee_mode"] = g_draws.total;
}

// ------------------------------------------------- a generic perturbed-op explorer
struct Cfg {
  std::string be;
  std::vector<std::string> args;
  int mode = 1;           // 0 ieee 1 full(mca) 2 inbound 3 outbound
  int t32 = 24, t64 = 53; // virtual precision
  bool rel = true, abs = false;
  int E = 0;
  bool daz = false, ftz = false;
  float sparsity = 1;
  int oper = 0;           // bitmask operator 0 zero 1 one 2 rand
  int p32 = 23, r32 = 8, p64 = 52, r64 = 11; // vprec
};
static inline bool inb(const Cfg &c) { return c.mode == 1 || c.mode == 2; }
static inline bool outb(const Cfg &c) { return c.mode == 1 || c.mode == 3; }

// reference draws: replays what the implementation was given, in order, then asks for more
struct RefDraws {
  size_t i = 0;
  std::vector<uint64_t> *fixed = nullptr; // when set, take from here
  Draws *enumr = nullptr;
  uint64_t next() {
    if (enumr) return enumr->next();
    if (fixed && i < fixed->size()) return (*fixed)[i++];
    i++;
    return 0x123456789abcdef0ull;
  }
};
template <class X> struct XF;
template <> struct XF<double> {
  static int e(double x) { return ilogb(x); }
  static double sc(double x, int k) { return ldexp(x, k); }
  static bool fin(double x) { return std::isfinite(x); }
  static bool repr(double x, int t) {
    uint64_t m = bits(x) & 0xfffffffffffffull;
    return m == 0 || __builtin_ctzll(m) >= 53 - t;
  }
};
template <> struct XF<F128> {
  static int e(F128 x) { return ilogbq(x); }
  static F128 sc(F128 x, int k) { return ldexpq(x, k); }
  static bool fin(F128 x) { return finiteq(x); }
  static bool repr(F128 x, int t) {
    u128 u; memcpy(&u, &x, 16);
    u &= (((u128)1) << 112) - 1;
    if (u == 0) return true;
    uint64_t lo = (uint64_t)u, hi = (uint64_t)(u >> 64);
    int tz = lo ? __builtin_ctzll(lo) : 64 + __builtin_ctzll(hi);
    return tz >= 113 - t;
  }
};
template <class T> struct Ext;
template <> struct Ext<float> { typedef double X; };
template <> struct Ext<double> { typedef F128 X; };

template <class X> static X perturb_quad(X x, int t, const Cfg &c, RefDraws &d) {
  if (x == 0 || x != x || !XF<X>::fin(x)) return x;
  if (c.mode == 3 && XF<X>::repr(x, t)) return x;
  if (c.sparsity < 1) { double u = u01(d.next()); if (u > c.sparsity) return x; }
  if (c.rel) { X n = (X)u01(d.next()) - (X)0.5; x = x + XF<X>::sc(n, XF<X>::e(x) - t + 1); }
  if (c.abs) { X n = (X)u01(d.next()) - (X)0.5; x = x + XF<X>::sc(n, c.E); }
  return x;
}
static double addord(double x, int t, uint64_t w) {
  if (t > 52) return x;
  int64_t s; memcpy(&s, &x, 8);
  s += ((int64_t)w) >> (11 + t);
  memcpy(&x, &s, 8);
  return x;
}
static F128 addord(F128 x, int t, uint64_t w) {
  if (t > 112) return x;
  i128 s; memcpy(&s, &x, 16);
  i128 n = (i128)((u128)w << 64);
  s += n >> (15 + t);
  memcpy(&x, &s, 16);
  return x;
}
template <class X> static X perturb_int(X x, int t, const Cfg &c, RefDraws &d) {
  if (x == 0 || x != x || !XF<X>::fin(x)) return x;
  if (c.mode == 3 && XF<X>::repr(x, t)) return x;
  if (c.sparsity < 1) { double u = u01(d.next()); if (u > c.sparsity) return x; }
  if (t > (sizeof(X) == 8 ? 52 : 112)) return x;
  return addord(x, t, d.next());
}
template <class T> static bool subn(T x) { return x != 0 && std::fabs(x) < std::numeric_limits<T>::min(); }
template <class T> static T dz(T x, const Cfg &c, bool keepsign) {
  return (c.daz && subn(x)) ? (keepsign ? std::copysign((T)0, x) : (T)0) : x;
}
template <class T> static T fz(T x, const Cfg &c) { return (c.ftz && subn(x)) ? (T)0 : x; }

template <class T, bool INT> static T ref_mca(int op, T a, T b, T c3, const Cfg &c, RefDraws &d, bool ks) {
  typedef typename Ext<T>::X X;
  int t = sizeof(T) == 4 ? c.t32 : c.t64;
  auto P = [&](X x) -> X { return INT ? perturb_int<X>(x, t, c, d) : perturb_quad<X>(x, t, c, d); };
  X xa = (X)dz(a, c, ks), xb = (X)dz(b, c, ks), xc = (X)dz(c3, c, ks);
  if (c.mode == 0) return fz(native<T>(op, (T)xa, (T)xb, (T)xc), c);
  if (inb(c)) { xa = P(xa); xb = P(xb); if (op == FMA) xc = P(xc); }
  X r = native<X>(op, xa, xb, xc);
  if (outb(c)) r = P(r);
  return fz((T)r, c);
}
template <bool INT> static float ref_mca_cast(double a, const Cfg &c, RefDraws &d, bool ks) {
  auto P = [&](F128 x) -> F128 { return INT ? perturb_int<F128>(x, c.t64, c, d) : perturb_quad<F128>(x, c.t64, c, d); };
  F128 xa = (F128)dz(a, c, ks);
  if (inb(c)) xa = P(xa);
  F128 r = (F128)(float)xa;
  if (outb(c)) r = P(r);
  double rd = fz((double)r, c);
  return fz((float)rd, c);
}

// bitmask
template <class T> static void mask_ref(T x, int t, const Cfg &c, RefDraws &d, std::vector<T> &out) {
  typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type U;
  const int PM = sizeof(T) == 4 ? 23 : 52;
  out.clear();
  if (x == 0 || !std::isfinite(x)) { out.push_back(x); return; }
  U u; memcpy(&u, &x, sizeof(T));
  U m = u & (((U)1 << PM) - 1);
  int lead = subn(x) ? (sizeof(T) == 4 ? 31 - __builtin_clz((uint32_t)m) : 63 - __builtin_clzll((uint64_t)m)) : PM; // position of the leading one
  int drop = lead + 1 - t; // low bits to rewrite
  if (drop < 0) drop = 0;
  bool rep = m == 0 || (sizeof(T) == 4 ? __builtin_ctz((uint32_t)m) : __builtin_ctzll((uint64_t)m)) >= drop;
  bool repn = m == 0 || (sizeof(T) == 4 ? __builtin_ctz((uint32_t)m) : __builtin_ctzll((uint64_t)m)) >= PM + 1 - t;
  if (c.mode == 3 && rep) {
    out.push_back(x);
    if (repn || !subn(x)) return; // subnormals: representability may also be judged at the normal position
  }
  U low = drop >= (int)(8 * sizeof(U)) ? ~(U)0 : (((U)1 << drop) - 1);
  U r = u;
  if (c.oper == 0) r = u & ~low;
  else if (c.oper == 1) r = u | low;
  else { uint64_t w = d.next(); r = u ^ ((U)w & low); }
  T y; memcpy(&y, &r, sizeof(T));
  out.push_back(y);
}
template <class T> static T mask1(T x, int t, const Cfg &c, RefDraws &d, int pick) {
  std::vector<T> o;
  mask_ref<T>(x, t, c, d, o);
  return o[pick % o.size()];
}
template <class T> static T ref_mask(int op, T a, T b, T c3, const Cfg &c, RefDraws &d, bool ks, int pick) {
  int t = sizeof(T) == 4 ? c.t32 : c.t64;
  a = dz(a, c, ks); b = dz(b, c, ks); c3 = dz(c3, c, ks);
  if (inb(c)) { a = mask1(a, t, c, d, 0); b = mask1(b, t, c, d, 0); if (op == FMA) c3 = mask1(c3, t, c, d, 0); }
  T r = native<T>(op, a, b, c3);
  if (outb(c)) r = mask1(r, t, c, d, pick);
  return fz(r, c);
}
static float ref_mask_cast(double a, const Cfg &c, RefDraws &d, bool ks, int pick) {
  a = dz(a, c, ks);
  if (inb(c)) a = mask1(a, c.t64, c, d, 0);
  double r = (float)a;
  if (outb(c)) r = mask1(r, c.t64, c, d, pick);
  return fz((float)fz(r, c), c);
}

// reference dispatcher: variant v enumerates the tolerated conventions
template <class T> static T ref(int op, T a, T b, T c3, const Cfg &c, RefDraws &d, int v) {
  if (c.be == "mca") return ref_mca<T, false>(op, a, b, c3, c, d, v & 1);
  if (c.be == "mca_int") return ref_mca<T, true>(op, a, b, c3, c, d, v & 1);
  return ref_mask<T>(op, a, b, c3, c, d, v & 1, (v >> 1) & 1);
}
static float refc(double a, const Cfg &c, RefDraws &d, int v) {
  if (c.be == "mca") return ref_mca_cast<false>(a, c, d, v & 1);
  if (c.be == "mca_int") return ref_mca_cast<true>(a, c, d, v & 1);
  return ref_mask_cast(a, c, d, v & 1, (v >> 1) & 1);
}
template <class T> static bool okv(T got, T want, const Cfg &c) { return (c.daz || c.ftz) ? same0(got, want) : same(got, want); }
static int nvar(const Cfg &c) { return c.be == "bitmask" ? 4 : 2; }

// Explores all draw sequences for one operand tuple. impl() runs the real code,
// refv(d, v) the law.  Returns false on a violation.
template <class T>
static bool explore_case(const Cfg &c, const std::function<T()> &impl, const std::function<T(RefDraws &, int)> &refv, std::string &msg) {
  g_draws.reset();
  bool direct = true, any = false;
  do {
    g_draws.begin();
    T got = impl();
    R.transitions++;
    if (g_draws.pos) any = true;
    std::vector<uint64_t> used;
    for (size_t i = 0; i < g_draws.pos; i++) used.push_back(g_draws.alphabet[g_draws.choice[i]]);
    bool ok = false;
    for (int v = 0; v < nvar(c) && !ok; v++) {
      RefDraws d; d.fixed = &used;
      T want = refv(d, v);
      // the law may not need more draws than were made
      ok = d.i <= used.size() && okv(got, want, c);
      if (!ok && v == 0) msg = "draws=" + drawstr() + " got " + hex(got) + " want " + hex(want) + (d.i > used.size() ? " (fewer random draws than the law needs)" : "");
    }
    if (!ok) { direct = false; break; }
  } while (g_draws.advance());
  if (any) R.nontrivial++;
  if (direct) return true;
  // the draws may be consumed in another order: compare the sets of outcomes
  std::set<uint64_t> A, B;
  auto key = [&](T x) -> uint64_t { if (x != x) return ~0ull; if ((c.daz || c.ftz) && x == 0) x = 0; return (uint64_t)bits(x); };
  g_draws.reset();
  uint64_t n = 0;
  do { g_draws.begin(); A.insert(key(impl())); R.transitions++; if (++n > 200000) break; } while (g_draws.advance());
  for (int v = 0; v < nvar(c); v++) {
    B.clear();
    g_draws.reset();
    n = 0;
    do { g_draws.begin(); RefDraws d; d.enumr = &g_draws; B.insert(key(refv(d, v))); if (++n > 200000) break; } while (g_draws.advance());
    if (A == B) { R.counters["set_equal"]++; return true; }
  }
  char buf[96];
  snprintf(buf, 96, " (outcome sets differ: %zu reached, %zu lawful)", A.size(), B.size());
  msg += buf;
  return false;
}

template <class T>
static void explore_ops(Backend &b, const Cfg &c, const std::vector<T> &V, const std::vector<T> &W, const std::vector<uint64_t> &al, const std::vector<uint64_t> &alf) {
  std::string cs = cfgstr(c.be, c.args);
  for (int op = ADD; op <= FMA; op++) {
    if (!mine()) continue;
    g_draws.alphabet = op == FMA ? alf : al;
    const auto &X = op == FMA ? W : V;
    std::vector<T> Z = op == FMA ? W : std::vector<T>{(T)0};
    for (T x : X) for (T y : X) for (T z : Z) {
      std::string m;
      R.states++;
      bool ok = explore_case<T>(c, [&]() { return call<T>(b, op, x, y, z); },
                                [&](RefDraws &d, int v) { return ref<T>(op, x, y, z, c, d, v); }, m);
      if (!ok) R.violation("{" + cs + "} " + tn<T>() + " " + OPN[op] + "(" + hex(x) + "," + hex(y) + (op == FMA ? "," + hex(z) : "") + ") " + m);
      if (R.nviol > 50) return;
    }
  }
  if (R.samples.size() < 6) {
    T x = V[7], y = V[V.size() / 2 + 1];
    g_draws.alphabet = al; g_draws.reset(); g_draws.begin();
    T g = call<T>(b, MUL, x, y, 0);
    R.sample("{" + cs + "} " + tn<T>() + " mul(" + hex(x) + "," + hex(y) + ") draws=" + drawstr() + " -> " + hex(g));
  }
}
static void explore_casts(Backend &b, const Cfg &c, const std::vector<double> &V, const std::vector<uint64_t> &al) {
  if (!mine()) return;
  std::string cs = cfgstr(c.be, c.args);
  g_draws.alphabet = al;
  for (double x : V) {
    std::string m;
    R.states++;
    bool ok = explore_case<float>(c, [&]() { return call_cast(b, x); }, [&](RefDraws &d, int v) { return refc(x, c, d, v); }, m);
    if (!ok) R.violation("{" + cs + "} cast(" + hex(x) + ") " + m);
    if (R.nviol > 50) return;
  }
}
static const std::vector<uint64_t> DRAWS_FULL = {0x8000000000000000ull, 0, 0xffffffffffffffffull, 0x7fffffffffffffffull, 0x8000000000001000ull, 0x7ffffffffffff000ull,
                                                 0x4000000000000000ull, 0xc123456789abcdefull, 0x0000000000001000ull};
static const std::vector<uint64_t> DRAWS_4 = {0x8000000000000000ull, 0, 0xffffffffffffffffull, 0x3123456789abcdefull};
static const std::vector<uint64_t> DRAWS_3 = {0x8000000000000000ull, 0x4000000000000000ull, 0xc123456789abcdefull};

static void run_mca(bool INT) {
  std::string be = INT ? "mca_int" : "mca";
  const char *modes[] = {"ieee", "mca", "pb", "rr"};
  auto mk = [&](int mode, int t32, int t64) {
    Cfg c; c.be = be; c.mode = mode; c.t32 = t32; c.t64 = t64;
    c.args = {std::string("--mode=") + modes[mode], "--precision-binary32=" + std::to_string(t32), "--precision-binary64=" + std::to_string(t64)};
    return c;
  };
  std::vector<std::pair<int, int>> ts = {{1, 1}, {2, 3}, {12, 30}, {23, 52}, {24, 53}, {25, 54}, {52, 112}, {53, 113}, {60, 120}};
  if (INT) ts = {{24, 53}}; // the only precisions this backend accepts
  else if (g_thorough) for (int t = 3; t < 52; t++) if (t != 12 && t != 23 && t != 24 && t != 25) ts.push_back({t, 2 * t + 2});
  auto VF = small<float>(); auto VD = small<double>();
  auto WF = tiny<float>(); auto WD = tiny<double>();
  auto CV = small_d();
  for (int mode = 0; mode < 4; mode++) for (auto &t : ts) {
    Cfg c = mk(mode, t.first, t.second);
    Backend b = load_backend(be, c.args);
    auto al = mode == 1 ? DRAWS_4 : DRAWS_FULL;
    explore_ops<float>(b, c, VF, WF, g_thorough ? DRAWS_FULL : al, DRAWS_3);
    explore_ops<double>(b, c, g_thorough ? VD : (mode == 1 ? WD : VD), WD, mode == 1 && !g_thorough ? DRAWS_4 : al, DRAWS_3);
    explore_casts(b, c, CV, DRAWS_FULL);
  }
  // all draws for a few tuples, full alphabet, mode mca
  {
    Cfg c = mk(1, 24, 53);
    Backend b = load_backend(be, c.args);
    explore_ops<float>(b, c, WF, {1.0f, -0x1.6p0f, 0x1.fffffep0f}, DRAWS_FULL, DRAWS_FULL);
    explore_ops<double>(b, c, WD, {1.0, -0x1.6p0, 0x1.fffffffffffffp0}, DRAWS_FULL, DRAWS_FULL);
  }
  // daz / ftz / sparsity / error modes
  for (int mode = 0; mode < 4; mode++) {
    for (int f = 1; f < 4; f++) {
      Cfg c = mk(mode, INT ? 24 : 10, INT ? 53 : 20);
      if (f & 1) { c.daz = true; c.args.push_back("--daz"); }
      if (f & 2) { c.ftz = true; c.args.push_back("--ftz"); }
      Backend b = load_backend(be, c.args);
      explore_ops<float>(b, c, VF, WF, DRAWS_3, DRAWS_3);
      explore_ops<double>(b, c, VD, WD, DRAWS_3, {0x4000000000000000ull, 0xc123456789abcdefull});
      explore_casts(b, c, CV, DRAWS_4);
    }
    for (float sp : {0.5f, 0.25f, 0.1f, 1.0f}) {
      Cfg c = mk(mode, 24, 53);
      c.sparsity = sp;
      c.args.push_back("--sparsity=" + std::to_string(sp));
      c.sparsity = strtof(std::to_string(sp).c_str(), nullptr);
      Backend b = load_backend(be, c.args);
      std::vector<uint64_t> al = {0x8000000000000000ull, 0x4000000000000000ull, 0xc123456789abcdefull};
      std::vector<uint64_t> al2 = {0x4000000000000000ull, 0xc123456789abcdefull};
      explore_ops<float>(b, c, WF, {1.0f, -0x1.6p0f, 0.0f}, al, al2);
      explore_ops<double>(b, c, WD, {1.0, -0x1.6p0, 0.0}, al, al2);
      explore_casts(b, c, CV, DRAWS_FULL);
    }
    if (!INT) for (int em = 1; em < 3; em++) for (int E : {-300, -140, -20, 0, 7, 100, 112}) {
      Cfg c = mk(mode, 24, 53);
      c.rel = em == 2; c.abs = true; c.E = E;
      c.args.push_back(em == 2 ? "--error-mode=all" : "--error-mode=abs");
      c.args.push_back("--max-abs-error-exponent=" + std::to_string(E));
      Backend b = load_backend(be, c.args);
      explore_ops<float>(b, c, WF, {1.0f, -0x1.6p0f, 0x1.fffffep0f, 0.0f}, em == 2 ? DRAWS_3 : DRAWS_4, em == 2 ? std::vector<uint64_t>{0, 0xc123456789abcdefull} : DRAWS_3);
      explore_ops<double>(b, c, WD, {1.0, -0x1.6p0, 0x1.fffffffffffffp0, 0.0}, em == 2 ? DRAWS_3 : DRAWS_4, em == 2 ? std::vector<uint64_t>{0, 0xc123456789abcdefull} : DRAWS_3);
      explore_casts(b, c, CV, DRAWS_4);
    }
  }
}
static void run_bitmask() {
  const char *modes[] = {"ieee", "full", "ib", "ob"};
  const char *opers[] = {"zero", "one", "rand"};
  std::vector<uint64_t> al = {0, ~0ull, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull, 0x0001000100010001ull};
  std::vector<uint64_t> al3 = {0, ~0ull, 0x5a5a5a5a5a5a5a5aull};
  auto CV = small_d();
  for (int mode = 0; mode < 4; mode++) for (int o = 0; o < 3; o++) {
    int last = g_thorough ? 24 : 24;
    for (int t = 1; t <= last; t++) {
      int t64 = t == last ? 53 : (t * 53) / 24;
      for (int f = 0; f < 4; f++) {
        if (f && !(t == 3 || t == 24)) continue;
        Cfg c; c.be = "bitmask"; c.mode = mode; c.oper = o; c.t32 = t; c.t64 = t64;
        c.args = {std::string("--mode=") + modes[mode], std::string("--operator=") + opers[o], "--precision-binary32=" + std::to_string(t), "--precision-binary64=" + std::to_string(t64)};
        if (f & 1) { c.daz = true; c.args.push_back("--daz"); }
        if (f & 2) { c.ftz = true; c.args.push_back("--ftz"); }
        Backend b = load_backend("bitmask", c.args);
        const auto &A = mode == 1 && o == 2 ? al3 : al;
        explore_ops<float>(b, c, small<float>(), o == 2 ? std::vector<float>{1.0f, -0x1.6p0f, 0x1.fffffep0f, 0x1.fffffcp-127f, 0.0f} : tiny<float>(), A, al3);
        explore_ops<double>(b, c, small<double>(), o == 2 ? std::vector<double>{1.0, -0x1.6p0, 0x1.fffffffffffffp0, 0x5p-1074, 0.0} : tiny<double>(), A, al3);
        explore_casts(b, c, CV, al);
      }
    }
  }
}

// ---------------------------------------------------------------- C05
static std::string g_captured;
template <class T> static int ebits(T x) {
  if (sizeof(T) == 4) return (int)((bits((float)x) >> 23) & 255) - 127;
  return (int)((bits((double)x) >> 52) & 2047) - 1023;
}
template <class T> static int etrue(T x) { return x == 0 ? ebits(x) : (std::isfinite(x) ? ilogb(x) : ebits(x)); }
template <class T> static void canc_ops(Backend &b, int tol, const std::vector<T> &V, const std::string &cs, bool warn, int fd) {
  for (int op = ADD; op <= DIV; op++) {
    if (!mine()) continue;
    for (T x : V) for (T y : V) {
      T ie = native<T>(op, x, y, 0);
      R.states++;
      g_draws.alphabet = DRAWS_FULL;
      g_draws.reset();
      std::set<uint64_t> reached;
      bool perturbed = false;
      do {
        g_draws.begin();
        T got = call<T>(b, op, x, y, 0);
        R.transitions++;
        size_t n = g_draws.pos;
        bool ok = false;
        std::string want = hex(ie);
        if (op == MUL || op == DIV || !std::isfinite(x) || !std::isfinite(y) || !std::isfinite(ie)) ok = same(got, ie);
        else {
          // both readings of the exponent of a subnormal/zero are accepted
          for (int k = 0; k < 2 && !ok; k++) {
            int ex = k ? etrue(x) : ebits(x), ey = k ? etrue(y) : ebits(y), ez = k ? etrue(ie) : ebits(ie);
            int can = std::max(ex, ey) - ez;
            if (can < tol) { if (same(got, ie)) ok = true; continue; }
            if (ie == 0 && same0(got, ie)) { ok = true; continue; } // nothing left to perturb
            if (n < 1) continue;
            perturbed = true;
            double u = u01(DRAWS_FULL[g_draws.choice[0]]) - 0.5;
            T w = (T)((double)ie + ldexp(u, ez - can + 1));
            want = hex(w);
            if (same0(got, w)) ok = true;
            // 'the ieee result plus the noise', rounded to the type either once or after the noise was rounded
            T w2 = (T)(ie + (T)ldexp(u, ez - can + 1));
            if (same0(got, w2)) ok = true;
          }
        }
        if (!ok) { R.violation("{" + cs + "} " + tn<T>() + " " + OPN[op] + "(" + hex(x) + "," + hex(y) + ") draws=" + drawstr() + " got " + hex(got) + " ieee " + hex(ie) + " lawful " + want); if (R.nviol > 50) return; }
      } while (g_draws.advance());
      if (perturbed) R.nontrivial++;
    }
  }
}
template <class T> static std::vector<T> canc_set() {
  std::vector<T> v;
  int p = std::numeric_limits<T>::digits;
  for (int k = 0; k <= p; k++) v.push_back((T)1 + (T)std::ldexp(1.0, -k));
  for (int k = 1; k <= p; k += 3) v.push_back((T)1 - (T)std::ldexp(1.0, -k));
  v.push_back((T)1); v.push_back((T)0.1); v.push_back((T)3); v.push_back(-(T)1 - std::numeric_limits<T>::epsilon()); v.push_back(-(T)3);
  v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::min() * (T)1.25); v.push_back(std::numeric_limits<T>::denorm_min()); v.push_back(std::numeric_limits<T>::max());
  v.push_back(std::nextafter(std::numeric_limits<T>::max(), (T)0));
  v.push_back((T)0); v.push_back((T)-0.0); v.push_back((T)INFINITY); v.push_back((T)-INFINITY); v.push_back((T)NAN);
  return v;
}
static void c05() {
  for (int tol : {0, 1, 2, 5, 23, 24, 52, 53, 100, 1000}) {
    std::vector<std::string> a = {"--tolerance=" + std::to_string(tol)};
    Backend b = load_backend("cancellation", a);
    std::string cs = cfgstr("cancellation", a);
    canc_ops<float>(b, tol, canc_set<float>(), cs, false, -1);
    canc_ops<double>(b, tol, canc_set<double>(), cs, false, -1);
    c01_fma<float>(b, cs, tiny<float>());
    c01_fma<double>(b, cs, tiny<double>());
    c01_cast(b, cs);
    g_draws.reset(); g_draws.begin();
    R.sample("{" + cs + "} sub(0x1.8p+0,0x1.4p+0) -> " + hex(call<double>(b, SUB, 1.5, 1.25, 0)));
  }
  // default tolerance is 1
  {
    Backend b = load_backend("cancellation", {});
    canc_ops<float>(b, 1, canc_set<float>(), "cancellation", false, -1);
    canc_ops<double>(b, 1, canc_set<double>(), "cancellation", false, -1);
  }
  // the warning: printed exactly for cancellations (observed on stderr)
  setenv("VFC_BACKENDS_LOGGER", "True", 1);
  g_draws.reset();
  for (int warn = 0; warn < 2; warn++) for (int tol : {1, 4}) {
    if (!mine()) continue;
    char path[] = "/tmp/vfc_mc_XXXXXX";
    int fd = mkstemp(path);
    unlink(path);
    fflush(stderr);
    int save = dup(2);
    dup2(fd, 2);
    std::vector<std::string> a = {"--tolerance=" + std::to_string(tol)};
    if (warn) a.push_back("--warning=1");
    Backend b = load_backend("cancellation", a);
    g_draws.alphabet = {0x4000000000000000ull};
    std::vector<double> V = {1.0, 1.5, 1.25, 1.0625, -1.25, 3.0, 100.0, 1 + 0x1p-20};
    std::string bad;
    for (int op = ADD; op <= DIV; op++) for (double x : V) for (double y : V) for (int ty = 0; ty < 2; ty++) {
      fflush(stderr);
      off_t before = lseek(2, 0, SEEK_CUR);
      g_draws.reset(); g_draws.begin();
      double ie;
      if (ty) { (void)call<double>(b, op, x, y, 0); ie = native<double>(op, x, y, 0); }
      else { (void)call<float>(b, op, (float)x, (float)y, 0); ie = native<float>(op, (float)x, (float)y, 0); }
      fflush(stderr);
      off_t after = lseek(2, 0, SEEK_CUR);
      R.transitions++; R.states++;
      if (ie == 0) continue;
      int can = std::max(ilogb(x), ilogb(y)) - ilogb(ie);
      bool expect = warn && (op == ADD || op == SUB) && can >= tol;
      if (expect) R.nontrivial++;
      if (expect != (after != before))
        bad = "{" + cfgstr("cancellation", a) + "} " + OPN[op] + "(" + hex(x) + "," + hex(y) + ") warning " + (after != before ? "printed" : "missing");
    }
    fflush(stderr);
    dup2(save, 2);
    close(save);
    if (!bad.empty()) R.violation(bad);
  }
}

#ifdef REALRNG
// ------------------------------------------------- the real generator behind the seam
// Every seed of a range: what the backend returns stays inside the interval the law spans when the
// draw goes from its least to its greatest value, and the draws fill that interval.
template <class T> static void real_one(Cfg c, int op, T x, T y, T lo, T hi, bool fill, T quiet) {
  T mn = (T)INFINITY, mx = (T)-INFINITY;
  bool same_seen = false, other = false;
  if (lo > hi) std::swap(lo, hi);
  for (int seed = 1; seed <= (g_thorough ? 512 : 64); seed++) {
    Cfg k = c;
    k.args.push_back("--seed=" + std::to_string(seed * 7919ull * (seed % 3 ? 1 : 1000003ull)));
    Backend b = load_backend(k.be, k.args);
    for (int n = 0; n < 600; n++) {
      T got = call<T>(b, op, x, y, 0);
      R.transitions++;
      if (!(got >= lo && got <= hi)) {
        R.violation("{" + cfgstr(k.be, k.args) + "} " + tn<T>() + " " + OPN[op] + "(" + hex(x) + "," + hex(y) + "), draw " + std::to_string(n) + ": " + hex(got) + " is outside [" + hex(lo) + "," + hex(hi) + "]");
        return;
      }
      mn = std::min(mn, got); mx = std::max(mx, got);
      if (got == quiet) same_seen = true; else other = true;
    }
    R.states++;
  }
  R.nontrivial++;
  std::string w = "{" + cfgstr(c.be, c.args) + "} " + tn<T>() + " " + OPN[op] + "(" + hex(x) + "," + hex(y) + ") over all seeds: ";
  if (fill && !((double)mx - (double)mn >= 0.98 * ((double)hi - (double)lo)))
    R.violation(w + "results only fill [" + hex(mn) + "," + hex(mx) + "] of [" + hex(lo) + "," + hex(hi) + "]");
  if (c.sparsity < 1 && !(same_seen && other)) R.violation(w + (other ? "every result is perturbed" : "no result is perturbed"));
}
template <class T> static void real_type(const std::string &be) {
  T third = (T)1 / (T)3, y = (T)0.7;
  std::vector<uint64_t> zero(8, 0), ones(8, ~0ull);
  auto span = [&](Cfg c, int op, T a, T b2, bool fill) {
    if (!mine()) return;
    Cfg q = c; q.sparsity = 1;
    RefDraws d0; d0.fixed = &zero; RefDraws d1; d1.fixed = &ones;
    real_one<T>(c, op, a, b2, ref<T>(op, a, b2, 0, q, d0, 0), ref<T>(op, a, b2, 0, q, d1, 0), fill, native<T>(op, a, b2, 0));
  };
  Cfg c; c.be = be;
  const char *modes[] = {"ieee", "mca", "pb", "rr"};
  if (be == "mca") for (int mode : {2, 3}) for (int t : {3, 10, 20}) for (float sp : {1.0f, 0.5f, 0.1f}) {
    c.mode = mode; c.t32 = c.t64 = t; c.sparsity = sp;
    c.args = {std::string("--mode=") + modes[mode], "--precision-binary32=" + std::to_string(t), "--precision-binary64=" + std::to_string(t)};
    if (sp < 1) c.args.push_back("--sparsity=" + std::to_string(sp));
    if (mode == 3) span(c, MUL, third, y, true); else span(c, ADD, third, 0, true);
  }
  if (be == "mca_int") for (int mode : {2, 3}) {
    c.mode = mode;
    c.args = {std::string("--mode=") + modes[mode], "--precision-binary32=24", "--precision-binary64=53"};
    // as signed fractions the extreme draws are the two ends of the signed range
    std::vector<uint64_t> a(8, 1ull << 63), b(8, ~0ull >> 1);
    T u = third, v = mode == 3 ? y : (T)0;
    int op = mode == 3 ? MUL : ADD;
    if (!mine()) continue;
    RefDraws d0; d0.fixed = &a; RefDraws d1; d1.fixed = &b;
    real_one<T>(c, op, u, v, ref<T>(op, u, v, 0, c, d0, 0), ref<T>(op, u, v, 0, c, d1, 0), mode == 3, native<T>(op, u, v, 0));
  }
}
static void real_mask() {
  for (int t : {3, 10, 20}) for (int ty = 0; ty < 2; ty++) {
    if (!mine()) continue;
    std::vector<std::string> a = {"--mode=ob", "--operator=rand", "--precision-binary32=" + std::to_string(t), "--precision-binary64=" + std::to_string(t)};
    uint64_t low = (1ull << ((ty ? 53 : 24) - t)) - 1, zeros = low, ones = low; // low bits never seen at 0, at 1
    for (int seed = 1; seed <= 64; seed++) {
      auto k = a; k.push_back("--seed=" + std::to_string(seed * 104729));
      Backend b = load_backend("bitmask", k);
      for (int n = 0; n < 200; n++) {
        uint64_t got = ty ? bits(call<double>(b, MUL, 1.0 / 3, 0.7, 0)) : bits(call<float>(b, MUL, 1.0f / 3, 0.7f, 0));
        uint64_t ie = ty ? bits(native<double>(MUL, 1.0 / 3, 0.7, 0)) : bits(native<float>(MUL, 1.0f / 3, 0.7f, 0));
        R.transitions++;
        if ((got ^ ie) & ~low) { R.violation("{" + cfgstr("bitmask", k) + "} a kept bit changed"); return; }
        zeros &= got; ones &= ~got;
      }
      R.states++;
    }
    R.nontrivial++;
    if (zeros || ones) R.violation("{" + cfgstr("bitmask", a) + "} over all seeds some bits beyond the precision never change");
  }
}
template <class T> static void real_canc() {
  struct { T x, y; } P[] = {{(T)1.5, (T)1.25}, {(T)1.0009765625, (T)1}, {(T)3.0, (T)2.9375}};
  for (auto &p : P) {
    if (!mine()) continue;
    Cfg c; c.be = "cancellation"; c.args = {"--tolerance=1"};
    T ie = p.x - p.y;
    int e = ilogb(ie), can = std::max(ilogb(p.x), ilogb(p.y)) - e;
    T h = (T)ldexp(1.0, e - can);
    real_one<T>(c, SUB, p.x, p.y, ie - h, ie + h, true, ie);
  }
}
static void real_rng(const std::string &sub) {
  if (sub == "C02" || sub == "C03") { real_type<float>(sub == "C02" ? "mca" : "mca_int"); real_type<double>(sub == "C02" ? "mca" : "mca_int"); }
  else if (sub == "C04") real_mask();
  else if (sub == "C05") { real_canc<float>(); real_canc<double>(); }
}
#endif
// ---------------------------------------------------------------- C06 / C07
// nearest representable of (p fraction bits, r exponent bits); *alt receives a second
// acceptable answer for the exact half of the smallest subnormal
template <class T> static T vround(T x, int r, int p, T *alt, int Q0 = -100000, bool overflow = true) {
  *alt = x;
  if (!std::isfinite(x) || x == 0) return x;
  const int PM = sizeof(T) == 4 ? 23 : 52;
  int emax = (1 << (r - 1)) - 1, emin = 1 - emax;
  int e = ilogb(x);
  int Q = std::max(std::max(e - p, emin - p), Q0);
  // |x| = m * 2^k
  (void)PM;
  int k;
  uint64_t m;
  {
    int ee; double fr = frexp(fabs((double)x), &ee); // |x| = fr*2^ee
    m = (uint64_t)ldexp(fr, 53);
    k = ee - 53;
  }
  long double val;
  bool half0 = false, tie = false;
  uint64_t flo = 0;
  if (k >= Q) val = fabsl((long double)x);
  else {
    int s = Q - k;
    uint64_t q;
    if (s > 60) q = 0;
    else {
      q = m >> s;
      uint64_t rem = m & ((1ull << s) - 1), h = 1ull << (s - 1);
      if (rem == h && q == 0) half0 = true;
      if (rem == h) { tie = true; flo = q; }
      if (rem > h || (rem == h && (q & 1))) q++;
    }
    val = ldexpl((long double)q, Q);
  }
  T res;
  if (overflow && val >= ldexpl(1.0L, emax + 1)) res = (T)INFINITY;
  else res = (T)val;
  // absolute grid: ties may go either way
  if (tie && !half0 && Q0 > -100000) *alt = std::copysign((T)ldexpl((long double)((long double)flo + ((flo & 1) ? 0 : 1)), Q), x);
  else *alt = half0 ? std::copysign((T)ldexpl(1.0L, Q), x) : std::copysign(res, x);
  return std::copysign(res, x);
}
template <class T> static void c06_type() {
  const bool f = sizeof(T) == 4;
  const int P = f ? 23 : 52, Rm = f ? 8 : 11;
  for (int r = 2; r <= Rm; r++) for (int p = 1; p <= P; p++) {
    if (!mine()) continue;
    std::vector<std::string> a = {"--mode=ob", "--precision-binary32=" + std::to_string(f ? p : 23), "--range-binary32=" + std::to_string(f ? r : 8),
                                  "--precision-binary64=" + std::to_string(f ? 52 : p), "--range-binary64=" + std::to_string(f ? 11 : r)};
    Backend b = load_backend("vprec", a);
    std::string cs = cfgstr("vprec", a);
    uint64_t bad = 0;
    auto one = [&](T x) {
      T alt, want = vround<T>(x, r, p, &alt);
      T got = call<T>(b, MUL, x, (T)1, 0);
      R.transitions++; R.states++;
      if (!same(want, x)) R.nontrivial++;
      bool zz = want == 0 && x != 0 && got == 0; // underflow to zero: the sign is unspecified
      if (!zz && !same(got, want) && !same(got, alt)) { if (bad++ < 2) R.violation(casestr(cs, MUL, x, (T)1, (T)0, got, want)); }
      else { // representable values are fixed points
        T g2 = call<T>(b, MUL, got, (T)1, 0);
        R.transitions++;
        if (!same(g2, got) && bad++ < 2) R.violation("{" + cs + "} not idempotent at " + hex(x) + ": " + hex(got) + " -> " + hex(g2));
      }
    };
    int emax = (1 << (r - 1)) - 1, emin = 1 - emax;
    // mantissas: every bit pattern around the rounding position, for each exponent of interest
    const uint64_t top = 1ull << P;
    std::set<uint64_t> M;
    for (int cut = 0; cut <= p + 1 && cut <= P; cut++) { // rounding position for (sub)normals: keep p-loss bits
      int keep = p - cut; if (keep < -1) break;
      if (!g_thorough && cut > 2 && cut < p - 1 && cut % 5) continue;
      int drop = P - keep; // bits dropped
      for (uint64_t hi : std::initializer_list<uint64_t>{0ull, 1ull, 2ull, 3ull, (1ull << (keep > 0 ? keep : 0)) - 1, ((1ull << (keep > 0 ? keep : 0)) - 1) & ~1ull}) {
        uint64_t base = drop >= 63 ? 0 : hi << drop;
        uint64_t h = drop >= 1 ? 1ull << (drop - 1) : 0;
        for (uint64_t lo : {(uint64_t)0, (uint64_t)1, h - 1, h, h + 1, (uint64_t)(drop >= 1 ? (1ull << drop) - 1 : 0)})
          M.insert((base + lo) & (top - 1));
      }
    }
    M.insert(top - 1); M.insert(0);
    std::set<int> E;
    for (int e : {emin - p - 3, emin - p - 2, emin - p - 1, emin - p, emin - p + 1, emin - 3, emin - 2, emin - 1, emin, emin + 1, -1, 0, 1, emax - 1, emax, emax + 1, emax + 2}) E.insert(e);
    if (g_thorough) { for (int e = emin - p - 4; e <= emin + 2; e++) E.insert(e); for (int e = -1100; e < 1100; e += 37) E.insert(e); }
    for (int e = f ? -149 : -1074; e <= (f ? -120 : -1015); e += g_thorough ? 1 : 5) E.insert(e);
    E.insert(f ? 127 : 1023);
    for (int e : E) for (uint64_t m : M) {
      if (e > (f ? 127 : 1023) || e < (f ? -149 : -1074)) continue;
      T x = (T)ldexp(1.0 + (double)m / (double)top, e); // exact when normal; rounds for subnormals, which is fine
      one(x); one(-x);
    }
    for (T x : small<T>()) one(x);
    if (p == 5 && r == 5) R.sample(casestr(cs, MUL, (T)0.1, (T)1, (T)0, call<T>(b, MUL, (T)0.1, (T)1, 0), (T)0));
    if (p == P && r == 3) R.sample(casestr(cs, MUL, (T)0.3, (T)1, (T)0, call<T>(b, MUL, (T)0.3, (T)1, 0), (T)0));
  }
  // every 16-bit float prefix (all signs, exponents, 7 mantissa bits) with every tail class
  if (f) for (int r : {2, 3, 5, 8}) for (int p : {1, 2, 5, 7, 10, 16, 22, 23}) {
    if (!mine()) continue;
    std::vector<std::string> a = {"--mode=ob", "--precision-binary32=" + std::to_string(p), "--range-binary32=" + std::to_string(r)};
    Backend b = load_backend("vprec", a);
    std::string cs = cfgstr("vprec", a);
    uint64_t bad = 0;
    for (uint32_t hi = 0; hi < 65536; hi++) for (uint32_t lo : {0u, 1u, 0x7fffu, 0x8000u, 0x8001u, 0xffffu}) {
      float x = ff(hi << 16 | lo), alt, want = vround<float>(x, r, p, &alt), got = call<float>(b, MUL, x, 1.0f, 0);
      R.transitions++; R.states++;
      if (!same(got, want) && !same(got, alt) && !(want == 0 && x != 0 && got == 0) && bad++ < 2) R.violation(casestr(cs, MUL, x, 1.0f, 0.0f, got, want));
    }
  }
}
static void c06() { c06_type<float>(); c06_type<double>(); }
// thorough extra: all 2^32 floats for given settings
static void c06_all() {
  for (int r : {3, 5, 8}) for (int p : {2, 7, 10, 23}) for (uint32_t part = 0; part < 8; part++) {
    if (!mine()) continue;
    std::vector<std::string> a = {"--mode=ob", "--precision-binary32=" + std::to_string(p), "--range-binary32=" + std::to_string(r)};
    Backend b = load_backend("vprec", a);
    std::string cs = cfgstr("vprec", a);
    uint64_t bad = 0;
    for (uint64_t u = (uint64_t)part << 29; u < (uint64_t)(part + 1) << 29; u++) {
      float x = ff((uint32_t)u), alt, want = vround<float>(x, r, p, &alt), got = call<float>(b, MUL, x, 1.0f, 0);
      R.transitions++; R.states++;
      if (!same(got, want) && !same(got, alt) && !(want == 0 && x != 0 && got == 0) && bad++ < 2) R.violation(casestr(cs, MUL, x, 1.0f, 0.0f, got, want));
    }
  }
}

// the full VPREC law for an operation; returns the set of acceptable results
template <class T> static void vr(T x, bool input, const Cfg &c, int r, int p, std::vector<T> &out) {
  int emax = (1 << (r - 1)) - 1, emin = 1 - emax;
  out.clear();
  if (!std::isfinite(x) || x == 0) { out.push_back(x); return; }
  if (ilogb(x) < emin && ((input && c.daz) || (!input && c.ftz))) { out.push_back((T)0); out.push_back(-(T)0); return; }
  T alt, w;
  if (!c.abs) { w = vround<T>(x, r, p, &alt); out.push_back(w); if (!same(w, alt)) out.push_back(alt); if (w == 0) out.push_back(-w); return; }
  // absolute error modes, normal values only (callers do not ask for others)
  w = vround<T>(x, r, c.rel ? p : (sizeof(T) == 4 ? 23 : 52), &alt, c.E, false);
  out.push_back(w);
  if (!same(w, alt)) out.push_back(alt);
  if (w == 0) out.push_back(-w);
  if (fabs((double)w) >= ldexp(1.0, emax) || ilogb(x) >= emax) { // overflow may be judged before or after
    out.push_back(std::copysign((T)INFINITY, x));
  }
}
template <class T> static bool vop_ok(int op, T a, T b, T c3, const Cfg &c, T got, std::string &want) {
  int r = sizeof(T) == 4 ? c.r32 : c.r64, p = sizeof(T) == 4 ? c.p32 : c.p64;
  std::vector<T> A{a}, B{b}, C{c3}, O;
  if (inb(c)) { vr(a, true, c, r, p, A); vr(b, true, c, r, p, B); if (op == FMA) vr(c3, true, c, r, p, C); }
  want = "";
  for (T x : A) for (T y : B) for (T z : C) {
    T n = native<T>(op, x, y, z);
    if (outb(c)) vr(n, false, c, r, p, O); else O.assign(1, n);
    for (T o : O) { if (same(o, got)) return true; want += hex(o) + " "; }
  }
  return false;
}
template <class T> static void vops(Backend &b, const Cfg &c, const std::vector<T> &V, const std::vector<T> &W) {
  std::string cs = cfgstr(c.be, c.args);
  for (int op = ADD; op <= FMA; op++) {
    if (!mine()) continue;
    const auto &X = op == FMA ? W : V;
    std::vector<T> Z = op == FMA ? W : std::vector<T>{(T)0};
    uint64_t bad = 0;
    int emin = 2 - (1 << ((sizeof(T) == 4 ? c.r32 : c.r64) - 1));
    for (T x : X) for (T y : X) for (T z : Z) {
      if (c.abs) { // scope of the abs/all law: operands and results that are normal (or special)
        auto odd = [&](T v) { return std::isfinite(v) && v != 0 && ilogb(v) < emin; };
        if (odd(x) || odd(y) || (op == FMA && odd(z))) continue;
        std::vector<T> A{x}, B{y}, C{z};
        bool skip = false;
        int r = sizeof(T) == 4 ? c.r32 : c.r64, p = sizeof(T) == 4 ? c.p32 : c.p64;
        if (inb(c)) { vr(x, true, c, r, p, A); vr(y, true, c, r, p, B); if (op == FMA) vr(z, true, c, r, p, C); }
        for (T q : A) for (T s : B) for (T t : C) if (odd(native<T>(op, q, s, t))) skip = true;
        if (skip) continue;
      }
      T got = call<T>(b, op, x, y, z);
      std::string want;
      R.states++; R.transitions++;
      if (!same(got, native<T>(op, x, y, z))) R.nontrivial++;
      if (!vop_ok<T>(op, x, y, z, c, got, want) && bad++ < 3)
        R.violation("{" + cs + "} " + tn<T>() + " " + OPN[op] + "(" + hex(x) + "," + hex(y) + (op == FMA ? "," + hex(z) : "") + ") got " + hex(got) + " want one of " + want);
    }
  }
}
static void vcasts(Backend &b, const Cfg &c) {
  if (!mine()) return;
  std::string cs = cfgstr(c.be, c.args);
  uint64_t bad = 0;
  std::vector<double> V = cast_set();
  for (double x : small_d()) V.push_back(x);
  for (double x : V) {
    float got = call_cast(b, x);
    R.states++; R.transitions++;
    std::vector<double> O{x};
    if (c.abs) continue;
    if (c.mode == 1 || c.mode == 3) vr<double>(x, false, c, c.r32, c.p32, O);
    else if (c.mode == 2) {
      if (c.r64 < 11 || c.p64 < 52) { // inbound: the operand is rounded to the binary64 settings, then converted
        vr<double>(x, true, c, std::min(c.r64, 8), std::min(c.p64, 23), O);
        std::vector<double> O2;
        vr<double>(x, true, c, c.r64, c.p64, O2);
        for (double o : O2) O.push_back(o);
      } else { vr<double>(x, true, c, 8, 23, O); if (!c.daz) O.push_back(x); }
    }
    bool ok = false;
    std::string want;
    for (double o : O) { if (same((float)o, got)) ok = true; want += hex((float)o) + " "; }
    if (!ok && bad++ < 3) R.violation("{" + cs + "} cast(" + hex(x) + ") got " + hex(got) + " want one of " + want);
  }
}
static void c07() {
  const char *modes[] = {"ieee", "full", "ib", "ob"};
  auto mk = [&](int mode, int p32, int r32, int p64, int r64) {
    Cfg c; c.be = "vprec"; c.mode = mode; c.p32 = p32; c.r32 = r32; c.p64 = p64; c.r64 = r64;
    c.args = {std::string("--mode=") + modes[mode], "--precision-binary32=" + std::to_string(p32), "--range-binary32=" + std::to_string(r32),
              "--precision-binary64=" + std::to_string(p64), "--range-binary64=" + std::to_string(r64)};
    return c;
  };
  struct S { int p32, r32, p64, r64; };
  std::vector<S> ss = {{23, 8, 52, 11}, {10, 5, 10, 5}, {7, 8, 20, 8}, {1, 2, 1, 2}, {3, 4, 40, 11}, {23, 5, 52, 6}, {12, 8, 12, 11}, {22, 8, 51, 11}};
  auto addv = [](auto v) {
    typedef typename decltype(v)::value_type T;
    for (T x : {(T)0x1.001p0, (T)0x1.003p0, (T)0x1.fffp14, (T)0x1.ffep15, (T)65519.0, (T)65520.0, (T)0x1.4p-14, (T)0x1.8p-15, (T)0x1.ffcp-15, (T)0x1p-24, (T)0x1.8p-25, (T)0x1p-25, (T)0x1p-26, (T)0.7, (T)1.3}) { v.push_back(x); v.push_back(-x); }
    return v;
  };
  auto VF = addv(small<float>()); auto VD = addv(small<double>());
  auto WF = tiny<float>(); auto WD = tiny<double>();
  for (float x : {0x1.001p0f, 0x1.003p0f, 0x1p-25f, 65519.0f, 0x1p-14f, -0x1.ffcp-15f}) { WF.push_back(x); WD.push_back(x); }
  for (int mode = 0; mode < 4; mode++) for (auto &s : ss) for (int f = 0; f < 4; f++) {
    Cfg c = mk(mode, s.p32, s.r32, s.p64, s.r64);
    if (f & 1) { c.daz = true; c.args.push_back("--daz"); }
    if (f & 2) { c.ftz = true; c.args.push_back("--ftz"); }
    if (mode == 0) c.daz = c.ftz = false;
    Backend b = load_backend("vprec", c.args);
    vops<float>(b, c, VF, WF);
    vops<double>(b, c, VD, WD);
    vcasts(b, c);
    if (f == 0 && mode == 1) R.sample("{" + cfgstr(c.be, c.args) + "} float mul(0.7,1.3) -> " + hex(call<float>(b, MUL, 0.7f, 1.3f, 0)));
  }
  // presets: documented (range, precision)
  struct P { const char *n; int r, p; };
  for (P pr : {P{"binary16", 5, 10}, P{"binary32", 8, 23}, P{"bfloat16", 8, 7}, P{"tensorfloat", 8, 10}, P{"fp24", 7, 16}, P{"PXR24", 8, 15}}) for (int mode = 1; mode < 4; mode++) {
    Cfg c; c.be = "vprec"; c.mode = mode; c.p32 = c.p64 = pr.p; c.r32 = c.r64 = pr.r;
    c.args = {std::string("--mode=") + modes[mode], std::string("--preset=") + pr.n};
    Backend b = load_backend("vprec", c.args);
    vops<float>(b, c, VF, {1.0f, 0x1.001p0f, -0x1.6p0f});
    vops<double>(b, c, VD, {1.0, 0x1.001p0, -0x1.6p0});
  }
  // error modes
  for (int mode = 1; mode < 4; mode++) for (int em = 1; em < 3; em++) for (int E : {-40, -14, -3, 0, 1, 5, 10}) for (auto &s : ss) {
    if (E > (1 << (s.r32 - 1)) - 4 || E > (1 << (s.r64 - 1)) - 4) continue;
    Cfg c = mk(mode, s.p32, s.r32, s.p64, s.r64);
    c.abs = true; c.rel = em == 2; c.E = E;
    c.args.push_back(em == 2 ? "--error-mode=all" : "--error-mode=abs");
    c.args.push_back("--max-abs-error-exponent=" + std::to_string(E));
    Backend b = load_backend("vprec", c.args);
    vops<float>(b, c, VF, WF);
    vops<double>(b, c, VD, WD);
  }
}

int main(int argc, char **argv) {
  if (argc < 6) { fprintf(stderr, "usage: arith SUB PREFIX SHARD NSHARDS TIER\n"); return 3; }
  std::string sub = argv[1];
  g_prefix = argv[2];
  g_shard = atoi(argv[3]);
  g_nshards = atoi(argv[4]);
  g_thorough = !strcmp(argv[5], "thorough");
  setenv("VFC_BACKENDS_LOGGER", "False", 1);
  setenv("VFC_BACKENDS_SILENT_LOAD", "True", 1);
  if (!getenv("VP_STDERR") && !freopen("/dev/null", "w", stderr)) return 3;
  watchdog(&R.states, &R.transitions);
#ifdef REALRNG
  real_rng(sub);
  R.print();
  return 0;
#endif
  if (sub == "C01") c01();
  else if (sub == "C02") run_mca(false);
  else if (sub == "C03") run_mca(true);
  else if (sub == "C04") run_bitmask();
  else if (sub == "C05") c05();
  else if (sub == "C06") { c06(); if (g_thorough) c06_all(); }
  else if (sub == "C07") c07();
  else return 3;
  R.transitions += g_draws.total; // each random draw is a step of its own
  R.counters["draws"] = g_draws.total;
  R.print();
  return 0;
}
