/* Makes the user calls named on the command line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <interflop/interflop.h>
int main(int argc, char **argv) {
  volatile double x = 3.5, y = 0.125;
  double r = 0;
  for (int i = 1; i < argc; i++) {
    int v = atoi(argv[i] + 1);
    float f = 1.5f + v;
    double d = 2.5 + v;
    switch (argv[i][0]) {
    case 'o': r = x - y; break;
    case 'p': interflop_call(INTERFLOP_SET_PRECISION_BINARY32, v); break;
    case 'P': interflop_call(INTERFLOP_SET_PRECISION_BINARY64, v); break;
    case 'r': interflop_call(INTERFLOP_SET_RANGE_BINARY32, v); break;
    case 'R': interflop_call(INTERFLOP_SET_RANGE_BINARY64, v); break;
    case 'i': interflop_call(INTERFLOP_INEXACT_ID, FFLOAT, &f, v); break;
    case 'I': interflop_call(INTERFLOP_INEXACT_ID, FDOUBLE, &d, v); break;
    case 'c':
      switch (v) {
      case 0: interflop_call(INTERFLOP_CUSTOM_ID, 0, "zero", 7L); break;
      case 1: interflop_call(INTERFLOP_CUSTOM_ID, 1, d, "one", -7L); break;
      case 3: interflop_call(INTERFLOP_CUSTOM_ID, 3, d, d + 1, d + 2, "three", 1L << 40); break;
      default: /* more than the registers hold */
        interflop_call(INTERFLOP_CUSTOM_ID, 10, d, 1., 2., 3., 4., 5., 6., 7., 8., 9., "ten", -1L);
      }
    }
  }
  printf("%a\n", r);
  return 0;
}
