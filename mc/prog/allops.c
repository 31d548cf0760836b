/* Executes each instrumentable operation once, in a known order. */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void mark(const char *s) {
  const char *f = getenv("STUB_LOG");
  if (!f) return;
  FILE *o = fopen(f, "a");
  if (o) { fprintf(o, "main\t%s\n", s); fclose(o); }
}
static void pf(const char *n, float x) { unsigned u; memcpy(&u, &x, 4); printf("%s %x\n", n, u); }
static void pd(const char *n, double x) { unsigned long u; memcpy(&u, &x, 8); printf("%s %lx\n", n, u); }
int main(int argc, char **argv) {
  mark("start");
  volatile float a = 1.5f, b = -2.25f, c = 4.0f;
  volatile double x = 3.5, y = 0.125, z = -7.0;
  pf("add_float", a + b); pf("sub_float", a - b); pf("mul_float", a * b); pf("div_float", a / b);
  pd("add_double", x + y); pd("sub_double", x - y); pd("mul_double", x * y); pd("div_double", x / y);
#ifdef ALL
  printf("cmp_float %d\n", a < b);
  printf("cmp_double %d\n", x > y);
  pf("cast", (float)x);
  pf("fma_float", __builtin_fmaf(a, b, c));
  pd("fma_double", __builtin_fma(x, y, z));
#endif
  fflush(stdout);
  mark("end");
  int code = argc > 2 ? atoi(argv[2]) : 0;
  if (argc > 1 && argv[1][0] == 'e') exit(code);
  return code;
}
