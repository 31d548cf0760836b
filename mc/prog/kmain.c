/* Calls every kernel of the table with every operand set; not instrumented.
 * One line per call: index, set, operand bytes and result bytes in hexadecimal. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef void (*kfn)(void *, void *, void *, void *);
struct K { kfn f; char t; int lanes, outbytes; };
#include "ktable.h"
static int lg = -1;
static void mark(int k, int s) {
  char b[64];
  int n = snprintf(b, sizeof b, "main\tcall\t%d\t%d\n", k, s);
  if (lg >= 0 && write(lg, b, n) != n) _exit(98);
}
static const double V[] = {1.5, -2.25, 3.0, 0.1, -7.75, 1024.5, 0.0009765625, -1e-3, 12345.678, 0.3333333, -99.5, 6.5,
  2.125, -0.625, 41.0, 1e10, 3e-7, -8.8, 17.0, 0.7, 1e30, -1e-30, 5e5, 9.25, -3.125, 77.7, 4e-4, -6e6, 2.2, 3.3, -4.4, 8.25, 19.75};
static const double S[] = {0.0, -0.0, 1e300, -1e300, 1e-310, __builtin_inf(), -__builtin_inf(), 1e-45, 3e38, 1.0, -1.0, 1e39};
#define NV ((int)(sizeof V / sizeof *V))
#define NS ((int)(sizeof S / sizeof *S))
static double val(int set, int which, int lane) {
  switch (set) {
  case 0: return V[(lane + which * 7) % NV];
  case 1: return V[(lane * 5 + which * 11 + 3) % NV] * (1 + lane);
  case 2: return which == 1 ? V[lane % NV] : S[(lane + which) % NS];
  case 3: return which == 0 ? (lane % 3 == 0 ? __builtin_nan("") : V[lane]) : (lane % 4 == 1 ? __builtin_nan("") : V[(lane * 2) % NV]);
  default: return V[lane]; /* equal operands */
  }
}
static void hex(const unsigned char *p, int n) { for (int i = n - 1; i >= 0; i--) printf("%02x", p[i]); }
int main(void) {
  const char *l = getenv("STUB_LOG");
  if (l) lg = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
  static unsigned char in[3][1024] __attribute__((aligned(512))), out[1024] __attribute__((aligned(512)));
  for (int k = 0; k < (int)(sizeof T / sizeof *T); k++)
    for (int s = 0; s < 5; s++) {
      memset(out, 0xee, sizeof out);
      int e = T[k].t == 'f' ? 4 : T[k].t == 'd' ? 8 : T[k].t == 'h' ? 2 : 16;
      for (int w = 0; w < 3; w++)
        for (int i = 0; i < T[k].lanes; i++) {
          double v = val(s, w, i);
          if (e == 4) ((float *)in[w])[i] = (float)v;
          else if (e == 8) ((double *)in[w])[i] = v;
          else if (e == 2) ((_Float16 *)in[w])[i] = (_Float16)v;
          else ((long double *)in[w])[i] = v;
        }
      mark(k, s);
      T[k].f(in[0], in[1], in[2], out);
      mark(-1, 0);
      printf("%d %d", k, s);
      for (int w = 0; w < 3; w++) { printf(" "); for (int i = 0; i < T[k].lanes; i++) { printf(i ? "," : ""); hex(in[w] + i * e, e < 16 ? e : 10); } }
      printf(" ");
      hex(out, T[k].outbytes);
      printf("\n");
      for (unsigned i = T[k].outbytes; i < sizeof out; i++) if (out[i] != 0xee) { printf("overrun\n"); break; }
    }
  return 0;
}
