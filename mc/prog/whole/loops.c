#include <stdio.h>
#define N 203
static float a[N], b[N], c[N]; static double x[N], y[N], z[N]; static int k[N];
__attribute__((noinline)) void f1(void) { for (int i = 0; i < N; i++) c[i] = a[i] + b[i]; }
__attribute__((noinline)) void f2(void) { for (int i = 0; i < N; i++) c[i] = a[i] * b[i] - c[i] / (b[i] + 1000.f); }
__attribute__((noinline)) void d1(void) { for (int i = 0; i < N; i++) z[i] = x[i] / y[i] + z[i]; }
__attribute__((noinline)) void d2(double s) { for (int i = 0; i < N; i++) z[i] = s * x[i] - z[i] * y[i]; }
__attribute__((noinline)) void m1(void) { for (int i = 0; i < N; i++) c[i] = (float)(x[i] * a[i]); }
__attribute__((noinline)) void m2(void) { for (int i = 0; i < N; i++) z[i] = (double)a[i] + y[i]; }
__attribute__((noinline)) void s1(void) { for (int i = 1; i < N - 1; i++) z[i] = (x[i - 1] + x[i] + x[i + 1]) / 3.0; }
__attribute__((noinline)) void q1(void) { for (int i = 0; i < N; i++) c[i] = a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]; }
__attribute__((noinline)) void q2(void) { for (int i = 0; i < N; i++) k[i] = (x[i] < y[i]) + 2 * (x[i] == z[i]) + 4 * (x[i] >= 0.5 * z[i]); }
__attribute__((noinline)) double r1(void) { double s = 0; for (int i = 0; i < N; i++) s += x[i] * y[i]; return s; }
__attribute__((noinline)) float r2(void) { float s = 1; for (int i = 0; i < N; i++) if (a[i] < s) s = a[i]; return s; }
__attribute__((noinline)) void u4(void) { for (int i = 0; i + 4 <= N; i += 4) { c[i] = a[i] + b[i]; c[i + 1] = a[i + 1] + b[i + 1]; c[i + 2] = a[i + 2] + b[i + 2]; c[i + 3] = a[i + 3] + b[i + 3]; } }
__attribute__((noinline)) void u2(void) { for (int i = 0; i + 2 <= N; i += 2) { z[i] = x[i] - y[i]; z[i + 1] = x[i + 1] - y[i + 1]; } }
static void show(void) { for (int i = 0; i < N; i++) printf("%a %a %d ", (double)c[i], z[i], k[i]); printf("\n"); }
int main(void) {
  for (int i = 0; i < N; i++) { a[i] = 1.5f + 0.37f * (i % 13); b[i] = 2.25f - 0.11f * i; x[i] = 0.3 * i - 7; y[i] = 1.0 + i / 7.0; }
  f1(); show(); f2(); show(); d1(); show(); d2(1.1); show(); m1(); show(); m2(); show(); s1(); show(); q1(); show(); q2(); show();
  printf("%a %a\n", r1(), (double)r2()); u4(); show(); u2(); show();
}
