/* Stand-in for the user's run and comparison scripts of vfc_precexp.
 *   run DIR       under VFC_BACKENDS: writes the planned profile, or reads the configuration file
 *                 exactly as the vprec backend does and records the settings it would apply
 *   cmp REF CUR   accepts the recorded settings when the planned predicate does
 * The plan is read from $PE_PLAN: lines "min KEY V", "sum K KEY KEY..", "in KEY MASK",
 * "reffail", "hang KEY V", "chatty", "full" (reject everything).  KEY is as written in DIR/cfg. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int toks(char *line, char **t, int max) {
  int n = 0;
  char *p, *s;
  line[strcspn(line, "\n")] = 0;
  for (p = strtok_r(line, "\t", &s); p; p = strtok_r(NULL, "\t", &s)) {
    if (n < max) t[n] = p;
    n++;
  }
  return n;
}
static char *K[4000];
static int V[4000], nk;
static void put(FILE *o, const char *k, const char *v) {
  char *e;
  long x = strtol(v, &e, 10);
  if (e == v) exit(1);
  fprintf(o, "%s\t%ld\n", k, x);
  if (nk < 4000) { K[nk] = strdup(k); V[nk++] = x; }
}
static int get(const char *k) {
  for (int i = 0; i < nk; i++) if (!strcmp(K[i], k)) return V[i];
  return 1000;
}
static void die(const char *m) { fprintf(stderr, "stand-in: %s\n", m); exit(7); }
static int opt(const char *b, const char *o, char *out) {
  const char *p = strstr(b, o);
  if (!p) return 0;
  p += strlen(o);
  size_t n = strcspn(p, " ;");
  memcpy(out, p, n);
  out[n] = 0;
  return 1;
}
static void predicate(int hang) {
  FILE *f = fopen(getenv("PE_PLAN"), "r");
  static char l[65536];
  int ok = 1;
  if (!f) die("no plan");
  while (fgets(l, sizeof l, f)) {
    char *t[64], *s;
    int n = 0;
    l[strcspn(l, "\n")] = 0;
    for (char *p = strtok_r(l, "\t", &s); p && n < 64; p = strtok_r(NULL, "\t", &s)) t[n++] = p;
    if (!n) continue;
    if (!strcmp(t[0], "hang") && hang && get(t[1]) < atoi(t[2])) { for (int i = 0; i < 6000; i++) usleep(100000); }
    if (hang) continue;
    if (!strcmp(t[0], "min") && get(t[1]) < atoi(t[2])) ok = 0;
    if (!strcmp(t[0], "full")) ok = 0;
    if (!strcmp(t[0], "sum")) {
      int a = 0;
      for (int i = 2; i < n; i++) a += get(t[i]);
      if (a < atoi(t[1])) ok = 0;
    }
    if (!strcmp(t[0], "in")) {
      int v = get(t[1]);
      unsigned long long m = strtoull(t[2], 0, 0);
      if (v < 64 && !(m >> v & 1)) ok = 0;
    }
  }
  fclose(f);
  if (!hang) exit(!ok);
}
static int plan(const char *w) {
  FILE *f = fopen(getenv("PE_PLAN"), "r");
  static char l[65536];
  int r = 0;
  if (!f) die("no plan");
  while (fgets(l, sizeof l, f)) if (!strncmp(l, w, strlen(w))) r = 1;
  fclose(f);
  return r;
}
int main(int c, char **v) {
  const char *b = getenv("VFC_BACKENDS"), *lg = getenv("PE_LOG");
  char name[4096], pth[8192];
  const char *me = strrchr(v[0], '/') ? strrchr(v[0], '/') + 1 : v[0];
  if (!b || !lg) die("no environment");
  if (!strncmp(me, "cmp", 3)) {
    if (c != 3) die("cmp arguments");
    snprintf(pth, sizeof pth, "%s/ref", v[1]);
    if (access(pth, R_OK)) die("cmp: the first folder is not the reference run");
    snprintf(pth, sizeof pth, "%s/cfg", v[2]);
    FILE *f = fopen(pth, "r");
    if (!f) die("cmp: the second folder has no run");
    static char l[65536];
    while (fgets(l, sizeof l, f)) {
      char *tab = strrchr(l, '\t');
      *tab = 0;
      K[nk] = strdup(l);
      V[nk++] = atoi(tab + 1);
    }
    fclose(f);
    predicate(0);
  }
  if (c != 2) die("run arguments");
  if (plan("chatty")) for (int i = 0; i < 20000; i++) puts("some output of the program");
  fflush(stdout);
  FILE *log = fopen(lg, "a");
  if (opt(b, "--prec-output-file=", name)) {
    if (plan("reffail")) return 3;
    FILE *i = fopen(getenv("PE_PROFILE"), "r"), *o = fopen(name, "w");
    int ch;
    if (!i || !o) die("profile");
    while ((ch = fgetc(i)) != EOF) fputc(ch, o);
    fclose(o);
    snprintf(pth, sizeof pth, "%s/ref", v[1]);
    fclose(fopen(pth, "w"));
    fprintf(log, "REF\t%s\n", b);
    return 0;
  }
  if (!opt(b, "--prec-input-file=", name)) die("backend options");
  FILE *i = fopen(name, "r");
  if (!i) return 1;
  snprintf(pth, sizeof pth, "%s/cfg", v[1]);
  FILE *o = fopen(pth, "w");
  if (!o) die("output folder");
  static char l[65536];
  while (fgets(l, sizeof l, i)) {
    char *t[16], key[8192], id[4096];
    static const char *F[] = {"Prec64", "Range64", "Prec32", "Range32"};
    if (toks(l, t, 16) != 12) break;
    snprintf(id, sizeof id, "%s", t[0]);
    for (int k = 0; k < 4; k++) { snprintf(key, sizeof key, "%s|%s", id, F[k]); put(o, key, t[5 + k]); }
    int ni = atoi(t[9]), na = ni + atoi(t[10]);
    for (int a = 0; a < na; a++) {
      if (!fgets(l, sizeof l, i) || toks(l, t, 16) != 7) return 1; /* logger_error */
      snprintf(key, sizeof key, "%s|%s%d|Prec", id, a < ni ? "in" : "out", a < ni ? a : a - ni); put(o, key, t[3]);
      snprintf(key, sizeof key, "%s|%s%d|Range", id, a < ni ? "in" : "out", a < ni ? a : a - ni); put(o, key, t[4]);
    }
  }
  fclose(o);
  fprintf(log, "RUN\t%s", b);
  for (int k = 0; k < nk; k++) fprintf(log, "\t%s=%d", K[k], V[k]);
  fputc('\n', log);
  fclose(log);
  predicate(1);
  return 0;
}
