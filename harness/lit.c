// For every case in [arg, arg+arg2) and every value of its symbolic characters: the compiler accepts or rejects the
// text as the reference says, and the data it emits is what the reference says.
#include "lit.h"
void *memset(void *, int, size_t); void *malloc(size_t); void *memcpy(void *, const void *, size_t); size_t strlen(const char *); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int sprintf(char *, const char *, ...);
static struct image im; static struct lexp e; static uint8_t h[300];
static char *msgof(const struct lcase *f, const char *what) { char *m = malloc(strlen(f->name) + 200); strcpy(m, f->name); strcat(m, ": "); strcat(m, what); return m; }
// the main text goes to t.c, the parts after \002NAME\002 to other files
static void put(const char *t, int n, const char *o) { int b = 0; char *name = "t.c"; for (int k = 0; k <= n; k++) if (k == n || o[k] == 2) { hx_file(name, t + b, k - b); if (k == n) return; int q = k + 1; while (o[q] != 2) q++; name = malloc(q - k); memcpy(name, t + k + 1, q - k - 1); name[q - k - 1] = 0; k = q; b = q + 1; } }
static int split(char *args, const char *orig, int n, const char **av) { int ac = 0, k = 0; if (orig[0] == '!') k = 1; else av[ac++] = "t.c"; while (k < n) { av[ac++] = args + k; while (k < n && orig[k] != '\n') k++; k++; } av[ac] = 0; return ac; }
int remove(const char *);
// the same words, whatever the white space between them
static int words(const char *a, int n, const char *b, int m) { int i = 0, j = 0; for (;;) { int si = i, sj = j; while (i < n && (a[i] == ' ' || a[i] == '\n' || (a[i] == '\\' && i + 1 < n && a[i + 1] == '\n'))) i++; while (j < m && (b[j] == ' ' || b[j] == '\n')) j++; if (i == n || j == m) return i == n && j == m; if ((si != i) != (sj != j)) return 0; if (a[i++] != b[j++]) return 0; } }

int hx_main(void) {
  int first = symx_arg(), count = symx_arg2(); if (first + count > l_ncases) count = l_ncases - first;
  uint16_t sel = 0; if (count > 1) { symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < count); } sel = symx_concretize(sel);
  const struct lcase *f = &l_cases[first + sel]; symx_note(f->name);
  char nm[16];
  for (int k = 0; k < f->nholes; k++) { sprintf(nm, "@h%d", k); uint8_t v; symx_make_symbolic(&v, 1, nm); const char *s = f->sets[k]; int ok = 0, each = s[0] == '!' && strlen(s) % 2; s += each; /* '!': one path per value */ if (s[0] == '0' && (s[1] == '1' || s[1] == '7') && !s[2]) v = '0' + (v & (s[1] - '0')); else if (s[0]) { for (; s[0]; s += 2) ok |= (v >= (uint8_t)s[0]) & (v <= (uint8_t)s[1]); symx_assume(ok); } if (each) v = symx_concretize(v); h[k] = v; }
  int n = strlen(f->src), hole = 0; char *src = malloc(n + 1); for (int k = 0; k < n; k++) src[k] = f->src[k] == 1 ? (char)h[hole++] : f->src[k]; src[n] = 0;
  put(src, n, f->src);
  const char *av[24];
  n = strlen(f->args); char *args = malloc(n + 1); for (int k = 0; k < n; k++) args[k] = f->args[k] == 1 ? (char)h[hole++] : f->args[k] == '\n' ? 0 : f->args[k]; args[n] = 0;
  split(args, f->args, n, av);
  hx_budget = 80000000; int r = cc_run(av); size_t on;
  memset(&e, 0, sizeof e); e.accept = 1; e.textlen = -1; e.out = "t.o"; f->ref(h, &e); symx_assume(e.accept != 3); // after the run: the path condition stays simple during it
  char *o = hx_stdout(&on);
  if (r) { symx_note(hx_crash()); symx_note(o); }
  symx_check(r < CC_CRASH, msgof(f, "the compiler crashed")); if (r >= CC_CRASH) return 0;
  if ((e.alt || e.altstdout || e.altargs) && e.accept) { // an equivalent text must give the same outcome and the same object
    if (e.altstdout) { if (r) { symx_check(e.accept != 1, msgof(f, "a valid program was rejected")); symx_reach("rejected"); return 0; } e.alt = malloc(on + 1); memcpy(e.alt, o, on); e.altlen = on; }
    size_t s1 = 0, s2 = 0; unsigned char *p1 = e.altstdout ? 0 : hx_output(e.out, &s1), *c1 = malloc(s1 + 1); if (p1) memcpy(c1, p1, s1);
    char *o1 = malloc(on + 1); memcpy(o1, o, on); o1[on] = 0; if (e.alt) { if (strchr(f->src, 2)) put(e.alt, e.altlen, e.alt); else hx_file("t.c", e.alt, e.altlen); }
    if (e.altargs) { n = strlen(e.altargs); char *a2 = malloc(n + 1); for (int k = 0; k < n; k++) a2[k] = e.altargs[k] == '\n' ? 0 : e.altargs[k]; a2[n] = 0; split(a2, e.altargs, n, av); }
    if (!e.altstdout) remove(e.out); int r2 = cc_run(av); o = hx_stdout(&on); if (r2) { symx_note("alternative text:"); symx_note(e.alt ? e.alt : "same"); symx_note(hx_crash()); symx_note(o); }
    symx_check(r2 < CC_CRASH, msgof(f, "the compiler crashed on the alternative text")); if (r2 >= CC_CRASH) return 0;
    if (!r && r2) symx_check(0, msgof(f, "accepted, but the alternative text is rejected")); if (r && !r2) symx_check(0, msgof(f, "rejected, but the alternative text is accepted"));
    if (r || r2) { symx_check(r || e.altstdout || e.accept != 1, msgof(f, "a valid program was rejected")); symx_reach("rejected"); return 0; }
    unsigned char *p2 = hx_output(e.out, &s2); if (!e.altstdout) { int same = s1 == s2; if (same) for (int k = 0; k < s1; k++) same &= c1[k] == p2[k]; symx_check(same, msgof(f, "the object differs from that of the alternative text")); } }
  if (e.altE && e.accept) { if (r) { symx_check(e.accept != 1, msgof(f, "a valid program was rejected")); symx_reach("rejected"); return 0; }
    size_t s1, s2; unsigned char *p1 = hx_output(e.out, &s1); symx_check(p1 != 0, msgof(f, "no object file written")); if (!p1) return 0; char *c1 = malloc(s1 + 1); memcpy(c1, p1, s1); remove(e.out);
    const char *a2[30]; int k = 0; for (; av[k]; k++) a2[k] = av[k]; a2[k++] = "-E"; a2[k] = 0; r = cc_run(a2); o = hx_stdout(&on); if (r) symx_note(o); symx_check(r == 0, msgof(f, "a valid program is not preprocessed")); if (r) return 0;
    symx_check(hx_output(e.out, &s2) == 0, msgof(f, "an object was written by -E")); char *o1 = malloc(on + 1); memcpy(o1, o, on); o1[on] = 0; hx_file("p.c", o1, on); const char *a3[] = {"p.c", "-c", "-o", "t.o", 0}; r = cc_run(a3); o = hx_stdout(&on); if (r) { symx_note(o1); symx_note(o); } symx_check(r == 0, msgof(f, "the preprocessed text is rejected")); if (r) return 0;
    unsigned char *p2 = hx_output("t.o", &s2); int same = p2 && s1 == s2; if (same) for (int k = 0; k < s1; k++) same &= (unsigned char)c1[k] == p2[k]; if (!same) symx_note(o1); symx_check(same, msgof(f, "the object of the preprocessed text differs")); }
  for (int k = 0; k < e.nf && !r && e.accept; k++) { size_t fl; unsigned char *p = hx_output(e.f[k].name, &fl); char *m = malloc(200); sprintf(m, e.f[k].len < 0 ? "file %s must not be written" : "contents of file %s", e.f[k].name); if (e.f[k].len < 0) { symx_check(!p, msgof(f, m)); continue; } int same = p && words((char *)p, fl, e.f[k].text, e.f[k].len); if (p && !same) { char *t = malloc(fl + 1); memcpy(t, p, fl); t[fl] = 0; symx_note(t); } symx_check(same, msgof(f, m)); }
  if (e.accept == 2) { if (r) { symx_reach("rejected"); return 0; } }
  else if (!e.accept) { symx_check(r != 0, msgof(f, "an invalid program was accepted without a diagnostic")); if (r) symx_check(on > 0, msgof(f, "rejected without a message")); symx_reach("rejected"); return 0; }
  symx_check(r == 0, msgof(f, "a valid program was rejected")); if (r) return 0;
  if (e.textlen >= 0) { symx_check(on == e.textlen, msgof(f, "output text has the wrong length")); if (on == e.textlen) { int ok = 1; for (int k = 0; k < on; k++) ok &= o[k] == e.text[k]; symx_check(ok, msgof(f, "wrong output text")); } }
  if (e.cmp) { int ok = e.cmp(&e, o, on); if (!ok) { char *t = malloc(on + 1); memcpy(t, o, on); t[on] = 0; symx_note(t); } symx_check(ok, msgof(f, "wrong output text")); }
  if (e.n) {
    size_t sz; unsigned char *p = hx_output(e.out, &sz); symx_check(p != 0, msgof(f, "no object file written")); if (!p) return 0;
    ld_init(&im); int bad = ld_elf(&im, p, sz, 0) || ld_link(&im); if (bad) symx_note(ld_error()); symx_check(!bad, msgof(f, "the object file cannot be linked")); if (bad) return 0;
    for (int k = 0; k < e.n; k++) { uint8_t *q = (uint8_t *)ld_sym(&im, e.s[k].sym); char *m = malloc(100); sprintf(m, "symbol %s missing", e.s[k].sym); symx_check(q != 0, msgof(f, m)); if (!q) continue;
      sprintf(m, "wrong contents of %s", e.s[k].sym); int ok = 1; for (int b = 0; b < e.s[k].size; b++) ok &= q[b] == e.s[k].b[b]; symx_check(ok, msgof(f, m)); } }
  symx_reach("compared"); return 0; }
