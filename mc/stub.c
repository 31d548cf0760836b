/* A recording backend: logs every event, with the operands, to $STUB_LOG and
 * returns the IEEE result (or, with an argument T=<n>, results tagged with n).
 * M=<hex> removes callbacks from its table.  Copies of this object under
 * several names are several backends. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "interflop/interflop.h"

typedef struct { char inst[64]; long tag, n; unsigned long mask; } Ctx;
static int fd = -2, instances = 0;
static __thread char buf[1 << 16];
static __thread int len;
static void out(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  len += vsnprintf(buf + len, sizeof buf - len, fmt, ap);
  va_end(ap);
  if (len >= (int)sizeof buf) len = sizeof buf - 1;
}
static void end(void) {
  if (fd == -2) {
    const char *f = getenv("STUB_LOG");
    fd = f ? open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
  }
  out("\n");
  if (fd >= 0 && write(fd, buf, len) != len) _exit(99);
  len = 0;
}
static unsigned bf(float x) { unsigned u; memcpy(&u, &x, 4); return u; }
static unsigned long bd(double x) { unsigned long u; memcpy(&u, &x, 8); return u; }
static const char *name(void) {
  static char n[64];
  Dl_info i;
  if (!dladdr((void *)name, &i)) return "?";
  const char *b = strrchr(i.dli_fname, '/');
  snprintf(n, sizeof n, "%s", b ? b + 1 : i.dli_fname);
  char *d = strrchr(n, '.');
  if (d) *d = 0;
  return n;
}
void interflop_set_handler(const char *n, void *f) { (void)n; (void)f; }
const char *interflop_get_backend_name(void) { return "stub"; }
const char *interflop_get_backend_version(void) { return "0"; }
void interflop_pre_init(interflop_panic_t panic, File *stream, void **context) {
  (void)panic; (void)stream;
  Ctx *c = calloc(1, sizeof(Ctx));
  snprintf(c->inst, sizeof c->inst, "%s.%d", name(), instances++);
  *context = c;
  out("%s\tpre_init", c->inst); end();
}
void interflop_cli(int argc, char **argv, void *context) {
  Ctx *c = context;
  out("%s\tcli\t%d\t%s", c->inst, argc, argv[argc] == NULL ? "null" : "notnull");
  for (int i = 0; i < argc; i++) {
    out("\t%s", argv[i]);
    if (!strncmp(argv[i], "T=", 2)) c->tag = atol(argv[i] + 2);
    if (!strncmp(argv[i], "M=", 2)) c->mask = strtoul(argv[i] + 2, 0, 16);
  }
  end();
}
#define C Ctx *c = context
#define RES(T, native) (c->tag ? (T)(c->tag * 1024 + c->n++) : (T)(native))
#define OP2(op, sym, T, b, f)                                                  \
  static void op##_##T(T x, T y, T *r, void *context) {                        \
    C; out("%s\t" #op "_" #T "\t" f "\t" f, c->inst, b(x), b(y)); end();        \
    *r = RES(T, x sym y); }
OP2(add, +, float, bf, "%x") OP2(sub, -, float, bf, "%x") OP2(mul, *, float, bf, "%x") OP2(div, /, float, bf, "%x")
OP2(add, +, double, bd, "%lx") OP2(sub, -, double, bd, "%lx") OP2(mul, *, double, bd, "%lx") OP2(div, /, double, bd, "%lx")
static int rel(int p, double x, double y) {
  int u = isnan(x) || isnan(y), r = 0;
  if (u) return (p & 8) != 0;
  if ((p & 1) && x == y) r = 1;
  if ((p & 2) && x > y) r = 1;
  if ((p & 4) && x < y) r = 1;
  return r;
}
static void cmp_float(enum FCMP_PREDICATE p, float x, float y, int *r, void *context) {
  C; out("%s\tcmp_float\t%d\t%x\t%x", c->inst, (int)p, bf(x), bf(y)); end();
  *r = c->tag ? (int)(c->tag & 1) : rel(p, x, y); }
static void cmp_double(enum FCMP_PREDICATE p, double x, double y, int *r, void *context) {
  C; out("%s\tcmp_double\t%d\t%lx\t%lx", c->inst, (int)p, bd(x), bd(y)); end();
  *r = c->tag ? (int)(c->tag & 1) : rel(p, x, y); }
static void cast_d(double x, float *r, void *context) {
  C; out("%s\tcast\t%lx", c->inst, bd(x)); end(); *r = RES(float, x); }
static void fma_float(float x, float y, float z, float *r, void *context) {
  C; out("%s\tfma_float\t%x\t%x\t%x", c->inst, bf(x), bf(y), bf(z)); end(); *r = RES(float, fmaf(x, y, z)); }
static void fma_double(double x, double y, double z, double *r, void *context) {
  C; out("%s\tfma_double\t%lx\t%lx\t%lx", c->inst, bd(x), bd(y), bd(z)); end(); *r = RES(double, fma(x, y, z)); }
static void func(const char *what, interflop_function_stack_t *s, Ctx *c, int n, va_list ap) {
  interflop_function_info_t *f = s->array[s->top];
  out("%s\t%s\t%ld\t%s\t%d\t%d\t%d\t%d\t%d", c->inst, what, s->top, f ? f->id : "(null)", f ? f->isLibraryFunction : -1,
      f ? f->isIntrinsicFunction : -1, f ? f->useFloat : -1, f ? f->useDouble : -1, n);
  /* arguments: type, name, number of elements, address */
  for (int i = 0; i < n; i++) {
    int type = va_arg(ap, int);
    const char *nm = va_arg(ap, char *);
    unsigned sz = va_arg(ap, unsigned);
    void *p = va_arg(ap, void *);
    out("\t%d:%s:%u:", type, nm, sz);
    if (!p) { out("null"); continue; }
    unsigned k = sz ? sz : 1;
    if (k > 8) k = 8;
    for (unsigned j = 0; j < k; j++) {
      if (type == FFLOAT || type == FFLOAT_PTR) out("%s%x", j ? "," : "", bf(((float *)p)[j]));
      else if (type == FDOUBLE || type == FDOUBLE_PTR) out("%s%lx", j ? "," : "", bd(((double *)p)[j]));
      else out("?");
    }
  }
  end();
}
static void enter(interflop_function_stack_t *s, void *context, int n, va_list ap) { func("enter", s, context, n, ap); }
static void leave(interflop_function_stack_t *s, void *context, int n, va_list ap) { func("exit", s, context, n, ap); }
static void user(void *context, interflop_call_id id, va_list ap) {
  C; out("%s\tuser\t%d", c->inst, (int)id);
  if (id == INTERFLOP_INEXACT_ID) {
    int t = va_arg(ap, int); void *p = va_arg(ap, void *); int pr = va_arg(ap, int);
    if (t == FFLOAT) out("\t%d\t%x\t%d", t, bf(*(float *)p), pr);
    else out("\t%d\t%lx\t%d", t, bd(*(double *)p), pr);
  } else if (id == INTERFLOP_CUSTOM_ID) { /* n, then n doubles, then a string, then a long */
    int n = va_arg(ap, int);
    out("\t%d", n);
    for (int i = 0; i < n; i++) out("\t%lx", bd(va_arg(ap, double)));
    out("\t%s", va_arg(ap, char *));
    out("\t%ld", va_arg(ap, long));
  } else out("\t%d", va_arg(ap, int));
  end();
}
static void fini(void *context) { C; out("%s\tfinalize", c->inst); end(); }
struct interflop_backend_interface_t interflop_init(void *context) {
  C; out("%s\tinit", c->inst); end();
  struct interflop_backend_interface_t v;
  memset(&v, 0, sizeof v);
#define SET(bit, f, g) if (!(c->mask >> bit & 1)) v.f = g
  SET(0, interflop_add_float, add_float); SET(1, interflop_sub_float, sub_float);
  SET(2, interflop_mul_float, mul_float); SET(3, interflop_div_float, div_float);
  SET(4, interflop_cmp_float, cmp_float); SET(5, interflop_add_double, add_double);
  SET(6, interflop_sub_double, sub_double); SET(7, interflop_mul_double, mul_double);
  SET(8, interflop_div_double, div_double); SET(9, interflop_cmp_double, cmp_double);
  SET(10, interflop_cast_double_to_float, cast_d); SET(11, interflop_fma_float, fma_float);
  SET(12, interflop_fma_double, fma_double); SET(13, interflop_enter_function, enter);
  SET(14, interflop_exit_function, leave); SET(15, interflop_user_call, user);
  SET(16, interflop_finalize, fini);
  return v;
}
