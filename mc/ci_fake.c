/* Stands for a test program: writes the probes planned for (executable, backend, run). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) {
  const char *be = getenv("VFC_BACKENDS"), *out = getenv("VFC_PROBES_OUTPUT");
  const char *exe = argc > 1 ? argv[1] : "none";
  char line[4096], path[4096];
  int idx = -1, k = 0, n = 0;
  FILE *f = fopen("plan/backends", "r");
  if (!f || !be) return 9;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (!strcmp(line, be)) idx = k;
    k++;
  }
  fclose(f);
  if (idx < 0) { FILE *e = fopen("plan/unknown", "a"); fprintf(e, "%s\n", be); return 9; }
  snprintf(path, sizeof path, "plan/%s.%d.count", exe, idx);
  f = fopen(path, "r");
  if (f) { if (fscanf(f, "%d", &n) != 1) n = 0; fclose(f); }
  f = fopen(path, "w");
  fprintf(f, "%d", n + 1);
  fclose(f);
  snprintf(path, sizeof path, "plan/%s.%d.%d.csv", exe, idx, n);
  f = fopen(path, "r");
  if (!f) return 0;               /* nothing exported */
  FILE *o = fopen(out ? out : "/dev/null", "w");
  if (!o) return 9;
  size_t r;
  while ((r = fread(line, 1, sizeof line, f))) fwrite(line, 1, r, o);
  fclose(o);
  return 0;
}
