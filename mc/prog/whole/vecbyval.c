#include <stdio.h>
typedef double d8 __attribute__((ext_vector_type(8)));
__attribute__((noinline)) d8 add(d8 a, d8 b) { return a + b; }
int main(void) { d8 a, b, c; for (int i = 0; i < 8; i++) { a[i] = i + 1; b[i] = 20 + i; } c = add(a, b); for (int i = 0; i < 8; i++) printf("%g ", c[i]); printf("\n"); }
