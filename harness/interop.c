// The same source is compiled by the compiler under test (functions a_*) and by a conforming compiler (functions b_*).
// Every caller passes arbitrary argument bytes to a callee of the other side, which records what it received.
#include "interop.h"
void *memset(void *, int, size_t); void *malloc(size_t); void *memcpy(void *, const void *, size_t); size_t strlen(const char *); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int sprintf(char *, const char *, ...);
static struct image im; static struct call c;
static char *mk(const struct iosig *s, const char *dir, const char *what) { char *m = malloc(strlen(s->desc) + 200); strcpy(m, dir); strcat(m, ": "); strcat(m, s->desc); strcat(m, ": "); strcat(m, what); return m; }
int hx_main(void) {
  char *flags = strchr(symx_sarg(), ';') + 1; int first = symx_arg(), count = symx_arg2(); if (first + count > io_nsigs) count = io_nsigs - first;
  static char src[1 << 20]; char *e = src; for (int k = 0; io_src[k]; k++) { size_t n = strlen(io_src[k]); memcpy(e, io_src[k], n + 1); e += n; }
  hx_text("t.c", src);
  int r = flags[0] ? cc_runl("t.c", "-c", "-o", "t.o", flags, (char *)0) : cc_runl("t.c", "-c", "-o", "t.o", (char *)0);
  if (r) { symx_note(hx_crash()); size_t n; char *o = hx_stdout(&n); symx_note(o); }
  symx_check(r < CC_CRASH, "the compiler crashed on a valid program"); symx_check(r == 0, "the compiler rejected a valid program"); if (r) return 0;
  size_t n, pn; unsigned char *o = hx_output("t.o", &n), *p = symx_host_read(io_peer, &pn); ld_init(&im);
  int bad = io_ms ? ld_coff(&im, o, n, 0) || ld_coff(&im, p, pn, 1) || ld_link(&im) : ld_elf(&im, o, n, 0) || ld_elf(&im, p, pn, 1) || ld_link(&im);
  if (bad) symx_note(ld_error()); symx_check(!bad, "the object file cannot be linked with that of another compiler"); if (bad) return 0;
  uint16_t sel; symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < 3 * count); sel = symx_concretize(sel); int dir = sel % 3; const struct iosig *s = &io_sigs[first + sel / 3];
  if (dir == 2 && !s->retmem) return 0;
  const char *dn = dir == 0 ? "calling a function of another compiler" : dir == 1 ? "called from another compiler" : "hidden return pointer"; symx_note(dn); symx_note(s->desc);
  unsigned char *in = malloc(s->insz + 16), *out = malloc(s->insz + 16), *ri = malloc(s->retsz + 16), *ro = malloc(s->retsz + 16);
  symx_make_symbolic(in, s->insz, "args"); symx_make_symbolic(ri, s->retsz, "ret"); memset(out, 0x33, s->insz + 16); memset(ro, 0x44, s->retsz + 16); memset(ri + s->retsz, 0, 16);
  if (s->pre) symx_assume(s->pre(in, ri));
  char nm[32]; uint64_t g; static const char side[2] = {'a', 'b'};
  for (int k = 0; k < 2; k++) { sprintf(nm, "%c_out", side[k]); g = ld_sym(&im, nm); *(uint64_t *)g = (uint64_t)out; sprintf(nm, "%c_ret", side[k]); g = ld_sym(&im, nm); *(uint64_t *)g = (uint64_t)ri; }
  uint64_t *al = (uint64_t *)ld_sym(&im, "b_align"); *al = 0;
  memset(&c, 0, sizeof c); for (int k = 0; k < 16; k++) { c.r[k] = 0xfeedfacecafe0000ull + k; c.xl[k] = 0x7ff0decadebeef00ull + k; c.xh[k] = 0x123456789abcdef0ull; }
  c.symstack = 1; c.shadow = io_ms;
  if (dir == 2) { sprintf(nm, "a_f%d", first + sel / 3); c.r[RAX] = 0; c.r[io_ms ? RCX : RDI] = (uint64_t)ro; } else { sprintf(nm, "%c_c%d", side[dir], first + sel / 3); c.r[io_ms ? RCX : RDI] = (uint64_t)in; c.r[io_ms ? RDX : RSI] = (uint64_t)ro; }
  if (dir == 2 && io_ms) { c.r[RDX] = c.r[R8] = c.r[R9] = (uint64_t)in; c.nstk = 40; for (int k = 0; k < 40; k++) c.stk[k] = (uint64_t)in; } // by-reference arguments need valid pointers
  c.fn = ld_sym(&im, nm); symx_check(c.fn != 0, mk(s, dn, "function missing from the object")); if (!c.fn) return 0;
  unsigned char *keep = malloc(s->insz + 16); memcpy(keep, in, s->insz);
  hx_call(&c); if (c.crash) symx_note(hx_fault());
  symx_check(!c.crash, mk(s, dn, "compiled code faults")); if (c.crash) return 0;
  symx_check(!c.bad_preserve, mk(s, dn, "callee-saved register changed")); symx_check(!c.bad_xmm, mk(s, dn, "callee-saved vector register changed"));
  if (dir != 2) { char *m = mk(s, dn, "the callee changed the caller's object"); unsigned b = 0; for (; b + 8 <= s->insz; b += 8) { uint64_t u, v; memcpy(&u, in + b, 8); memcpy(&v, keep + b, 8); symx_check(u == v, m); } for (; b < s->insz; b++) symx_check(in[b] == keep[b], m); }
  if (dir == 0) symx_check(*al == 0, mk(s, dn, "misaligned stack"));
  if (dir == 2) { symx_check(c.r[RAX] == (uint64_t)ro, mk(s, dn, "rax does not hold the return address")); return 0; }
  for (int k = -1; k < s->nargs; k++) { unsigned sz = k < 0 ? s->retsz : (k + 1 < s->nargs ? s->off[k + 1] : s->insz) - s->off[k]; if (!sz) continue; unsigned char x[512] = {0}, y[512] = {0};
    const unsigned char *xs = k < 0 ? ri : in + s->off[k], *ys = k < 0 ? ro : out + s->off[k];
    s->norm(k, x, xs); s->norm(k, y, ys); char w[40]; if (k < 0) strcpy(w, "wrong return value"); else sprintf(w, "wrong value of argument %d", k + 1); char *m = mk(s, dn, w);
    for (unsigned b = 0; b + 8 <= sz; b += 8) { uint64_t u, v; memcpy(&u, x + b, 8); memcpy(&v, y + b, 8); symx_check(u == v, m); } for (unsigned b = sz & ~7u; b < sz; b++) symx_check(x[b] == y[b], m); }
  for (int b = 0; b < 16; b++) symx_check((ro[s->retsz + b] == 0x44) & (out[s->insz + b] == 0x33), mk(s, dn, "bytes after the value were written"));
  symx_reach("compared"); return 0; }
