// Compile tv_src with the compiler under test, then for every function in [arg, arg+arg2) and every argument
// value: running the emitted machine code gives what the reference semantics give.
#include "tv.h"
void *memset(void *, int, size_t); void *malloc(size_t); void *memcpy(void *, const void *, size_t); int strcmp(const char *, const char *); size_t strlen(const char *); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int sprintf(char *, const char *, ...);
static struct image im; static struct call c;
static int width(char k) { switch (k) { case 'b': case 'c': case 'C': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; default: return 8; } }
static char *msgof(const struct tvfn *f, const char *what) { char *m = malloc(strlen(f->desc) + 200); strcpy(m, f->name); strcat(m, " "); strcat(m, f->desc); strcat(m, ": "); strcat(m, what); return m; }
static uint64_t canon(char k, uint64_t v) { switch (k) { case 'b': return (uint8_t)v; case 'c': case 'C': return (uint8_t)v; case 's': case 'S': return (uint16_t)v; case 'i': case 'I': case 'f': return (uint32_t)v; default: return v; } }
static int isnan32(uint32_t v) { return (v & 0x7fffffff) > 0x7f800000; } static int isnan64(uint64_t v) { return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
#ifndef TV_ABI
#define TV_ABI 0
#endif
static char *src_end; static void add(const char *const *p) { for (; *p; p++) { size_t n = strlen(*p); memcpy(src_end, *p, n + 1); src_end += n; } }
int hx_main(void) {
  int first = symx_arg(), count = symx_arg2(); if (first + count > tv_nfns) count = tv_nfns - first;
  char *flags = strchr(symx_sarg(), ';') + 1;
  char *src = malloc(1 << 20); src[0] = 0; src_end = src; add(tv_pre); for (int k = 0; k < count; k++) add(tv_src[first + k]); add(tv_tail);
  hx_text("t.c", src);
  int r = flags[0] ? cc_runl("t.c", "-c", "-o", "t.o", flags, (char *)0) : cc_runl("t.c", "-c", "-o", "t.o", (char *)0);
  if (r) { symx_note(hx_crash()); size_t n; char *o = hx_stdout(&n); symx_note(o); }
  symx_check(r < CC_CRASH, "the compiler crashed on a valid program"); symx_check(r == 0, "the compiler rejected a valid program"); if (r) return 0;
  size_t n; unsigned char *o = hx_output("t.o", &n); ld_init(&im); int bad = ld_elf(&im, o, n, 0) || ld_link(&im); if (bad) symx_note(ld_error()); symx_check(!bad, "the object file cannot be linked"); if (bad) return 0;
  uint16_t sel = 0; if (count > 1) { symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < count); } sel = symx_concretize(sel);
  const struct tvfn *f = &tv_fns[first + sel]; symx_note(f->name); symx_note(f->desc);
  uint64_t a[12], ra[12]; uint8_t *gb = 0, *rb = 0; int ng = 0, nx = 0; static const uint8_t order[] = {RDI, RSI, RDX, RCX, R8, R9};
  memset(&c, 0, sizeof c); for (int k = 0; k < 16; k++) { c.r[k] = 0xfeedfacecafe0000ull + k; c.xl[k] = 0x7ff0decadebeef00ull + k; c.xh[k] = 0x123456789abcdef0ull; } c.r[RAX] = 8; c.symstack = 1; char nm[8];
  for (int k = 0; f->args[k]; k++) {
    char t = f->args[k]; int w = width(t); uint64_t v = 0, hi = 0; sprintf(nm, "@a%d", k);
    if (t == 'p') { uint8_t *p = malloc(f->bufsz), *q = malloc(f->bufsz); sprintf(nm, "p%d", k); symx_make_symbolic(p, f->bufsz, nm); memcpy(q, p, f->bufsz); if (!gb) { gb = p; rb = q; } a[k] = (uint64_t)p; ra[k] = (uint64_t)q; c.r[order[ng++]] = a[k]; continue; }
    symx_make_symbolic(&v, w, nm); if (t == 'b') symx_assume(v < 2);
    a[k] = ra[k] = v;
    if (t == 'f') { c.xl[nx] = v; c.xh[nx++] = 0; continue; } if (t == 'd') { c.xl[nx] = v; c.xh[nx++] = 0; continue; }
    uint64_t g = t == 'c' ? (uint32_t)(int8_t)v : t == 's' ? (uint32_t)(int16_t)v : v; // callers extend to 32 bits, above that is garbage
    if (w < 8) g |= 0xa5c3000000000000ull;
    if (ng < 6) c.r[order[ng++]] = g; else c.stk[c.nstk++] = g; }
  if (f->pre) symx_assume(f->pre(ra));
  ng = 0; for (int k = 0; f->args[k]; k++) { if (f->conc >> k & 1) a[k] = ra[k] = c.r[order[ng]] = symx_concretize(ra[k]); ng++; }
  struct tvret rr = {0, 0}; f->ref(ra, &rr);
  c.fn = ld_sym(&im, f->name); symx_check(c.fn != 0, msgof(f, "function missing from the object")); if (!c.fn) return 0;
  hx_call(&c); if (c.crash) symx_note(hx_fault());
  symx_check(!c.crash, msgof(f, "compiled code faults")); if (c.crash) return 0;
  symx_check(!c.bad_preserve, msgof(f, "callee-saved register changed"));
  char t = f->ret;
  if (t == 'f') { uint32_t x = c.xl[0], y = rr.x; symx_check((x == y) | (isnan32(x) & isnan32(y)), msgof(f, "wrong result")); }
  else if (t == 'd') { uint64_t x = c.xl[0], y = rr.x; symx_check((x == y) | (isnan64(x) & isnan64(y)), msgof(f, "wrong result")); }
  else if (t != 'v') symx_check(canon(t, c.r[RAX]) == canon(t, rr.i), msgof(f, "wrong result"));
  int first_p = 1;
  for (int k = 0; f->args[k]; k++) if (f->args[k] == 'p') {
    uint8_t *p = (uint8_t *)a[k], *q = (uint8_t *)ra[k];
    if (first_p && f->slots) { // named 8-byte slots; kind letter then name
      const char *s = f->slots; int pos = 0; while (*s) { char kind = *s++; char name[64]; int l = 0; while (*s && *s != '\n') { if (l < 63) name[l++] = *s; s++; } if (*s) s++; name[l] = 0; char *m = msgof(f, name); uint64_t x, y; memcpy(&x, p + pos, 8); memcpy(&y, q + pos, 8); pos += 8;
        if (kind == 'd') symx_check((x == y) | (isnan64(x) & isnan64(y)), m); else symx_check(x == y, m); }
    } else { char *m = msgof(f, "wrong memory contents"); for (int b = 0; b + 8 <= f->bufsz; b += 8) { uint64_t x, y; memcpy(&x, p + b, 8); memcpy(&y, q + b, 8); symx_check(x == y, m); } for (int b = f->bufsz & ~7; b < f->bufsz; b++) symx_check(p[b] == q[b], m); }
    first_p = 0; }
  symx_reach("compared"); return 0; }
