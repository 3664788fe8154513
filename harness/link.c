// For every case in [arg, arg+arg2), every spelling of its symbolic characters and all values of the arguments: the
// linked program computes what the reference computes, and the objects are well formed and declare the right symbols.
#include "link.h"
void *memset(void *, int, size_t); void *malloc(size_t); void *memcpy(void *, const void *, size_t); size_t strlen(const char *); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int sprintf(char *, const char *, ...);
static struct image im; static struct call c; static uint8_t h[64];
static char *msgof(const struct kcase *f, const char *what) { char *m = malloc(strlen(f->name) + strlen(what) + 10); strcpy(m, f->name); strcat(m, ": "); strcat(m, what); return m; }
static int ran(const struct kcase *f, int r) { if (r) { symx_note(hx_crash()); size_t n; char *o = hx_stdout(&n); symx_note(o); } symx_check(r < CC_CRASH, msgof(f, "the compiler crashed")); symx_check(r == 0, msgof(f, "a valid program was rejected")); return r; }
int hx_main(void) {
  int first = symx_arg(), count = symx_arg2(); if (first + count > k_ncases) count = k_ncases - first;
  uint16_t sel = 0; if (count > 1) { symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < count); } sel = symx_concretize(sel);
  const struct kcase *f = &k_cases[first + sel]; symx_note(f->name); char nm[32]; int hole = 0;
  for (int k = 0; k < f->nholes; k++) { sprintf(nm, "@h%d", k); uint8_t v; symx_make_symbolic(&v, 1, nm); const char *s = f->sets[k]; int ok = 0; for (; *s; s += 2) ok |= (v >= (uint8_t)s[0]) & (v <= (uint8_t)s[1]); symx_assume(ok); h[k] = v; }
  if (f->pre) symx_assume(f->pre(h));
  for (int i = 0; i < f->nfiles; i++) { const char *s = f->src[i]; int n = strlen(s); char *t = malloc(n + 1); for (int k = 0; k < n; k++) t[k] = s[k] == 1 ? (char)h[hole++] : s[k]; t[n] = 0; sprintf(nm, "f%d.c", i); hx_file(nm, t, n); }
  char link = f->mode[f->nfiles]; uint64_t entry = 0; ld_init(&im);
  if (link == 'M') { // one command for all files
    const char *av[10]; int ac = 0; for (int i = 0; i < f->nfiles; i++) { char *p = malloc(16); sprintf(p, "f%d.c", i); av[ac++] = p; } av[ac++] = "-c"; if (f->flags[0]) av[ac++] = f->flags; av[ac] = 0; if (ran(f, cc_run(av))) return 0; }
  for (int i = 0; i < f->nfiles; i++) { if (f->mode[i] != 'o') continue; char in[16], out[16]; sprintf(in, "f%d.c", i); sprintf(out, "f%d.o", i);
    int r = link == 'M' ? 0 : f->flags[0] ? cc_runl(in, "-c", "-o", out, f->flags, (char *)0) : cc_runl(in, "-c", "-o", out, (char *)0); if (ran(f, r)) return 0;
    size_t n; unsigned char *o = hx_output(out, &n); symx_check(o != 0, msgof(f, "no object file written")); if (!o) return 0;
    const char *w = ld_wellformed(o, n); if (w) symx_note(w); symx_check(!w, msgof(f, w ? w : "malformed object")); if (w) return 0;
    for (int k = 0; k < f->nnames; k++) if (f->names[k].file == i) { int b = ld_binding(o, n, f->names[k].name), x = f->names[k].binding; symx_check(x == 0 ? b == 0 || b == 3 : x == 4 ? b < 2 : b == x, msgof(f, f->names[k].name)); }
    if (link != 'X') { int bad = ld_elf(&im, o, n, 0); if (bad) symx_note(ld_error()); symx_check(!bad, msgof(f, "the object file cannot be linked")); if (bad) return 0; } }
  if (link != 'X') { int bad = ld_link(&im); if (bad) symx_note(ld_error()); symx_check(!bad, msgof(f, "the object files cannot be linked")); if (bad) return 0; entry = ld_sym(&im, "_start"); symx_check(entry != 0, msgof(f, "_start missing")); if (!entry) return 0;
    for (int k = 0; k < f->nnames; k++) if (f->names[k].align) symx_check(ld_sym(&im, f->names[k].name) % f->names[k].align == 0, msgof(f, "misaligned object")); }
  else { const char *av[10]; int ac = 0; for (int i = 0; i < f->nfiles; i++) { char *p = malloc(16); sprintf(p, "f%d.%c", i, f->mode[i]); av[ac++] = p; } av[ac++] = "-o"; av[ac++] = "x"; if (f->flags[0]) av[ac++] = f->flags; av[ac] = 0;
    if (ran(f, cc_run(av))) return 0; size_t n; unsigned char *o = hx_output("x", &n); symx_check(o != 0, msgof(f, "no executable written")); if (!o) return 0;
    entry = ld_exec(&im, o, n); if (!entry) symx_note(ld_error()); symx_check(entry != 0, msgof(f, entry ? "" : ld_error())); if (!entry) return 0; }
  uint64_t a[2]; symx_make_symbolic(&a[0], 8, "@a"); symx_make_symbolic(&a[1], 8, "@b");
  memset(&c, 0, sizeof c); for (int k = 0; k < 16; k++) { c.r[k] = 0xfeedfacecafe0000ull + k; c.xl[k] = 0x7ff0decadebeef00ull + k; c.xh[k] = 0x123456789abcdef0ull; } c.r[RAX] = 0; c.r[RDI] = a[0]; c.r[RSI] = a[1]; c.symstack = 1; c.fn = entry;
  hx_call(&c); if (c.crash) symx_note(hx_fault()); symx_check(!c.crash, msgof(f, "the program faults")); if (c.crash) return 0;
  uint64_t x = f->ref(h, a[0], a[1]); symx_check(c.r[RAX] == x, msgof(f, "wrong result")); symx_reach("compared"); return 0; }
