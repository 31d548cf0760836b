#include <complex.h>
#include <math.h>
#include <stdarg.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct P { float x; double y; int k; float z[3]; };
static struct P mk(float x, double y, int k) { struct P p = {x, y, k, {x * 2, x / 3, x - 1}}; return p; }
static double addp(struct P a, struct P b) { return a.x * b.y - a.y / b.x + a.z[1] * b.z[2] + (a.k - b.k); }
static double sum(int n, ...) { va_list ap; va_start(ap, n); double s = 0; for (int i = 0; i < n; i++) s += va_arg(ap, double); va_end(ap); return s; }
static double rec(int n, double x) { return n == 0 ? x : rec(n - 1, x / 1.5 + n) * 0.75 - x; }
static float kahan(const float *a, int n) { float s = 0, c = 0; for (int i = 0; i < n; i++) { float y = a[i] - c; float t = s + y; c = (t - s) - y; s = t; } return s; }
static double horner(const double *c, int n, double x) { double r = 0; for (int i = n - 1; i >= 0; i--) r = r * x + c[i]; return r; }
typedef double (*fn)(double, double);
static double fa(double a, double b) { return a + b; }
static double fs(double a, double b) { return a - b; }
static double fm(double a, double b) { return a * b; }
static double fd(double a, double b) { return a / b; }
static int cmp(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
static jmp_buf jb;
static double jump(double x) { if (x > 10.0) longjmp(jb, (int)x); return jump(x * 1.75 + 0.5); }
int main(void) {
  float f[257]; double d[129];
  for (int i = 0; i < 257; i++) f[i] = (float)(i % 17) / 3.0f - (i & 1 ? 1e-3f : 2.5f) * i;
  for (int i = 0; i < 129; i++) d[i] = 1.0 / (i + 1) - 0.01 * (i % 7);
  printf("%a\n", addp(mk(1.25f, 3.3, 2), mk(-0.7f, 1e-3, 5)));
  printf("%a\n", sum(5, 1.5, 2.25f, d[3], (double)f[4], -7.0));
  printf("%a\n", rec(20, 0.3));
  printf("%a %a\n", (double)kahan(f, 257), horner(d, 129, 0.97));
  fn t[] = {fa, fs, fm, fd};
  double a = 1.1;
  for (int i = 0; i < 64; i++) a = t[(i * 7) % 4](a, 0.3 + i % 5);
  printf("%a\n", a);
  qsort(d, 129, sizeof *d, cmp);
  double s = 0; for (int i = 0; i < 129; i++) s += d[i] * (i + 1);
  printf("%a %a %a\n", s, d[0], d[128]);
  double m[8][8], n[8][8], r[8][8];
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { m[i][j] = (i + 1) / (j + 2.0); n[i][j] = (i - j) * 0.1; }
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { r[i][j] = 0; for (int k = 0; k < 8; k++) r[i][j] += m[i][k] * n[k][j]; }
  for (int i = 0; i < 8; i++) printf("%a ", r[i][7 - i]);
  long double L = 1.0L; for (int i = 1; i < 10; i++) L = L * i / 3.0L + 0.5L;
  printf("%La\n", L);
  int j = setjmp(jb); if (!j) jump(0.1); printf("%d\n", j);
  unsigned char c = 200; c = c * 1.01f + 3; int q = -7.9; unsigned u = 3e9; long l = (long)(1e15 / 3); short h = (short)(70.5f * 10.0f);
  printf("%d %d %u %ld %d\n", c, q, u, l, h);
  double nanv = 0.0 / (d[0] - d[0]), inf = 1.0 / 0.0; volatile double nz = -0.0;
  printf("%d %d %d %d %d %d %a\n", nanv == nanv, nanv != nanv, nanv < 1, inf > 1e308, -inf < inf, nz == 0.0, nz + nz);
  float _Complex z = 1.0f + 2.0f * I; z = z * z - z; printf("%a %a\n", crealf(z), cimagf(z));
  printf("%a %a %a %a\n", sqrt(2.0 * a * a), fabs(-a), floor(a * 7), fmod(a * a, 0.7));
  float g = 0x1p-140f; for (int i = 0; i < 12; i++) { g = g / 3.0f; printf("%a ", g); } printf("\n");
  float big = 1e38f; for (int i = 0; i < 5; i++) { big *= 1.7f; printf("%a ", big); } printf("\n");
  return 0;
}
