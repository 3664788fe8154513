// For every case in [arg, arg+arg2) and every value of its symbolic characters: two runs of the compiler that differ in
// what uninitialised memory contains and in where allocations lie give the same outcome, messages and files.
#include "lit.h"
void *memset(void *, int, size_t); void *memcpy(void *, const void *, size_t); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int strcmp(const char *, const char *); int sprintf(char *, const char *, ...); int remove(const char *);
static uint8_t h[300];
static char *msgof(const struct lcase *f, const char *what) { char *m = malloc(strlen(f->name) + 200); strcpy(m, f->name); strcat(m, ": "); strcat(m, what); return m; }
static void put(const char *t, int n, const char *o) { int b = 0; char *name = "t.c"; for (int k = 0; k <= n; k++) if (k == n || o[k] == 2) { hx_file(name, t + b, k - b); if (k == n) return; int q = k + 1; while (o[q] != 2) q++; name = malloc(q - k); memcpy(name, t + k + 1, q - k - 1); name[q - k - 1] = 0; k = q; b = q + 1; } }
static void same(const struct lcase *f, const char *what, const unsigned char *a, size_t an, const unsigned char *b, size_t bn) {
  char *m = malloc(80); sprintf(m, "%s depends on uninitialised memory or addresses", what); m = msgof(f, m);
  if (!a != !b || an != bn) { symx_check(0, m); return; } if (!a) return;
  for (size_t k = 0; k < an; k++) if (symx_is_symbolic(a[k]) || symx_is_symbolic(b[k])) { char t[60]; sprintf(t, "%s: byte %d", what, (int)k); symx_note(t); break; }
  int eq = 1; for (size_t k = 0; k < an; k++) eq &= a[k] == b[k]; symx_check(eq, m); }
static void *copy(const void *p, size_t n) { if (!p) return 0; char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
int hx_main(void) {
  int first = symx_arg(), count = symx_arg2(); if (first + count > l_ncases) count = l_ncases - first;
  uint16_t sel = 0; if (count > 1) { symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < count); } sel = symx_concretize(sel);
  const struct lcase *f = &l_cases[first + sel]; symx_note(f->name); char nm[16];
  for (int k = 0; k < f->nholes; k++) { sprintf(nm, "@h%d", k); uint8_t v; symx_make_symbolic(&v, 1, nm); const char *s = f->sets[k]; int ok = 0, each = s[0] == '!' && strlen(s) % 2; s += each; if (s[0] == '0' && (s[1] == '1' || s[1] == '7') && !s[2]) v = '0' + (v & (s[1] - '0')); else if (s[0]) { for (; s[0]; s += 2) ok |= (v >= (uint8_t)s[0]) & (v <= (uint8_t)s[1]); symx_assume(ok); } if (each) v = symx_concretize(v); h[k] = v; }
  int n = strlen(f->src), hole = 0; char *src = malloc(n + 1); for (int k = 0; k < n; k++) src[k] = f->src[k] == 1 ? (char)h[hole++] : f->src[k]; src[n] = 0;
  const char *av[24]; int ac = 0; av[ac++] = "t.c"; const char *out = 0;
  n = strlen(f->args); char *args = malloc(n + 1); for (int k = 0; k < n; k++) args[k] = f->args[k] == '\n' ? 0 : f->args[k]; args[n] = 0;
  for (int k = 0; k < n; k++) { av[ac++] = args + k; while (k < n && args[k]) k++; } av[ac] = 0; for (int k = 0; k + 1 < ac; k++) if (!strcmp(av[k], "-o")) out = av[k + 1];
  hx_variant(0); put(src, strlen(src), f->src); hx_budget = 80000000; int r1 = cc_run(av); size_t n1, f1 = 0; char *o1 = hx_stdout(&n1); o1 = copy(o1, n1); unsigned char *p1 = out ? copy(hx_output(out, &f1), f1) : 0;
  int nv = hx_variants();
  for (int v = 1; v <= nv; v++) { if (out) remove(out); hx_variant(v); put(src, strlen(src), f->src); int r2 = cc_run(av); size_t n2, f2 = 0; char *o2 = hx_stdout(&n2); unsigned char *p2 = out ? hx_output(out, &f2) : 0;
    if (r1 >= CC_CRASH || r2 >= CC_CRASH) { symx_check((r1 >= CC_CRASH) == (r2 >= CC_CRASH), msgof(f, "a crash depends on uninitialised memory or addresses")); if (v == nv) symx_reach("crash"); continue; }
    symx_check(r1 == r2, msgof(f, "the exit status depends on uninitialised memory or addresses")); if (r1 != r2) continue;
    same(f, "the output file", p1, f1, p2, f2); same(f, "the output", (unsigned char *)o1, n1, (unsigned char *)o2, n2); }
  symx_reach(r1 ? "rejected" : "accepted"); return 0; }
