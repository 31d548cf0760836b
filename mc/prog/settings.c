/* prints the bits of a fixed set of operations: every setting shows in them */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static void pf(float v) { uint32_t u; memcpy(&u, &v, 4); printf("%08x\n", u); }
static void pd(double v) { uint64_t u; memcpy(&u, &v, 8); printf("%016llx\n", (unsigned long long)u); }
static float ff(uint32_t u) { float v; memcpy(&v, &u, 4); return v; }
static double fd(uint64_t u) { double v; memcpy(&v, &u, 8); return v; }
int main(void) {
  static volatile uint32_t F[][2] = {
      {0x3fb504f3, 0x40490fdb}, {0x3f9e3779, 0xbf8a3d71}, {0x4b189680, 0x3eaaaaab}, {0x00200001, 0x3f9d70a4},
      {0x00812345, 0x3f234567}, {0x7e967699, 0x3f912345}, {0x42f6e979, 0x3b83126f}, {0x5f123457, 0x2e654321},
      {0x33333333, 0x2c123457}, {0x3f800001, 0xbf7fffff}, {0x3ff55555, 0x3f8aaaab}, {0x3fc90fdb, 0x40000003}};
  static volatile uint64_t D[][2] = {
      {0x3ff6a09e667f3bcdull, 0x400921fb54442d18ull}, {0x3ff3c6ef372fe94full, 0xbff147ae147ae148ull},
      {0x4163125abcdef123ull, 0x3fd5555555555555ull}, {0x0004000000000123ull, 0x3ff3ae147ae147aeull},
      {0x0010246891357abcull, 0x3fe468acf1357abcull}, {0x7fd2ced32a16a1b1ull, 0x3ff2468ace024681ull},
      {0x405edd2f1a9fbe77ull, 0x3f70624dd2f1a9fcull}, {0x5be2468ace13579bull, 0x25cca86420fdb975ull},
      {0x3666666666666666ull, 0x358246801357ace1ull}, {0x3ff0000000000001ull, 0xbfeffffffffffffeull},
      {0x3ffeaaaaaaaaaaabull, 0x3ff1555555555555ull}, {0x3ff921fb54442d18ull, 0x4000000000000003ull}};
  printf("start\n");
  fflush(stdout);
  for (unsigned i = 0; i < sizeof F / sizeof F[0]; i++) {
    volatile float a = ff(F[i][0]), b = ff(F[i][1]);
    volatile float r;
    r = a + b; pf(r); r = a - b; pf(r); r = a * b; pf(r); r = a / b; pf(r);
    r = __builtin_fmaf(a, b, 1.5f); pf(r);
  }
  for (unsigned i = 0; i < sizeof D / sizeof D[0]; i++) {
    volatile double a = fd(D[i][0]), b = fd(D[i][1]);
    volatile double r;
    r = a + b; pd(r); r = a - b; pd(r); r = a * b; pd(r); r = a / b; pd(r);
    r = __builtin_fma(a, b, 1.5); pd(r);
    volatile float f = (float)a; pf(f);
  }
  /* magnitudes */
  for (int k = 1; k < 2046; k += k < 990 || k > 1050 ? 13 : 1) {
    volatile double a = fd(((uint64_t)k << 52) | 0x6a09e667f3bcdull), b = 1.0, r;
    r = a * b; pd(r);
  }
  for (int k = 1; k < 254; k += 3) {
    volatile float a = ff(((uint32_t)k << 23) | 0x3504f3), b = 1.0f, r;
    r = a * b; pf(r);
  }
  /* cancellations of every number of bits */
  for (int k = 1; k < 24; k++) {
    volatile float a = 1.0f + (float)ff((uint32_t)(127 - k) << 23), b = -1.0f, r;
    r = a + b; pf(r);
  }
  for (int k = 1; k < 53; k++) {
    volatile double a = 1.0 + fd((uint64_t)(1023 - k) << 52), b = 1.0, r;
    r = a - b; pd(r);
  }
  return 0;
}
