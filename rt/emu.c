// x86-64 interpreter. Guest addresses are engine addresses. Flags are kept as the operands of the last
// flag-setting instruction and only turned into conditions when read.
#include "emu.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
void *malloc(size_t); void *calloc(size_t, size_t); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void free(void *); size_t strlen(const char *); int strcmp(const char *, const char *);
#define RETMAGIC 0xdead0000ull
#define HOSTMAGIC 0xdeae0000ull
enum { FK_NONE, FK_ADD, FK_SUB, FK_LOGIC, FK_UCOMI, FK_SHIFT, FK_UNDEF, FK_ADC, FK_SBB, FK_BT };
static char *fault_msg = "";
const char *hx_fault(void) { return fault_msg; }
static u64 mk(int w) { return w == 8 ? ~0ull : (1ull << (w * 8)) - 1; }
static u64 tr(u64 v, int w) { switch (w) { case 1: return (u8)v; case 2: return (u16)v; case 4: return (u32)v; default: return v; } }
static i64 sxt(u64 v, int w) { switch (w) { case 1: return (i8)v; case 2: return (i16)v; case 4: return (i32)v; default: return (i64)v; } }
static u64 ldm(u64 a, int w) { switch (w) { case 1: return *(u8 *)a; case 2: return *(u16 __attribute__((aligned(1))) *)a; case 4: return *(u32 __attribute__((aligned(1))) *)a; default: return *(u64 __attribute__((aligned(1))) *)a; } }
static void stm(u64 a, int w, u64 v) { switch (w) { case 1: *(u8 *)a = v; break; case 2: *(u16 __attribute__((aligned(1))) *)a = v; break; case 4: *(u32 __attribute__((aligned(1))) *)a = v; break; default: *(u64 __attribute__((aligned(1))) *)a = v; } }
static float asf(u64 v) { u32 x = v; float f; memcpy(&f, &x, 4); return f; }
static double asd(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static u64 fas(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u64 das(double f) { u64 x; memcpy(&x, &f, 8); return x; }
static void bad(const char *m) { symx_abort(m); }
static void setf(struct cpu *c, int k, int w, u64 a, u64 b, u64 r) { c->fk = k; c->fw = w; c->fa = a; c->fb = b; c->fr = r; }
static int flag_cf(struct cpu *c) {
  switch (c->fk) {
  case FK_ADD: return c->fr < c->fa; case FK_SUB: return c->fa < c->fb; case FK_LOGIC: return 0;
  case FK_ADC: case FK_SBB: case FK_BT: return c->fcf;
  case FK_UCOMI: { int r; if (c->fw == 4) { float a = asf(c->fa), b = asf(c->fb); r = !(a >= b); } else { double a = asd(c->fa), b = asd(c->fb); r = !(a >= b); } return r; }
  default: bad("undefined carry flag used"); return 0; } }
static int flag_zf(struct cpu *c) {
  if (c->fk == FK_UCOMI) { if (c->fw == 4) { float a = asf(c->fa), b = asf(c->fb); return !((a < b) | (a > b)); } double a = asd(c->fa), b = asd(c->fb); return !((a < b) | (a > b)); }
  if (c->fk == FK_NONE || c->fk == FK_UNDEF) bad("undefined zero flag used");
  if (c->fk == FK_SUB) return c->fa == c->fb;
  return c->fr == 0; }
static int flag_sf(struct cpu *c) { if (c->fk == FK_UCOMI) return 0; if (c->fk == FK_NONE || c->fk == FK_UNDEF) bad("undefined sign flag used"); return sxt(c->fr, c->fw) < 0; }
static int flag_of(struct cpu *c) {
  switch (c->fk) { case FK_LOGIC: case FK_UCOMI: return 0;
  case FK_ADD: case FK_ADC: return sxt((c->fa ^ c->fr) & (c->fb ^ c->fr), c->fw) < 0;
  case FK_SUB: case FK_SBB: return sxt((c->fa ^ c->fb) & (c->fa ^ c->fr), c->fw) < 0;
  default: bad("undefined overflow flag used"); return 0; } }
static int flag_pf(struct cpu *c) {
  if (c->fk == FK_UCOMI) { if (c->fw == 4) { float a = asf(c->fa), b = asf(c->fb); return (a != a) | (b != b); } double a = asd(c->fa), b = asd(c->fb); return (a != a) | (b != b); }
  if (c->fk == FK_NONE || c->fk == FK_UNDEF || c->fk == FK_SHIFT) bad("undefined parity flag used");
  u8 x = c->fr; x ^= x >> 4; x ^= x >> 2; x ^= x >> 1; return !(x & 1); }
static int cond(struct cpu *c, int cc) {
  int r;
  switch (cc >> 1) {
  case 0: r = flag_of(c); break; case 1: r = flag_cf(c); break; case 2: r = flag_zf(c); break;
  case 3: if (c->fk == FK_SUB) { r = c->fa <= c->fb; break; } r = flag_cf(c) | flag_zf(c); break;
  case 4: r = flag_sf(c); break; case 5: r = flag_pf(c); break;
  case 6: if (c->fk == FK_SUB) { r = sxt(c->fa, c->fw) < sxt(c->fb, c->fw); break; } if (c->fk == FK_LOGIC) { r = flag_sf(c); break; } r = flag_sf(c) ^ flag_of(c); break;
  default: if (c->fk == FK_SUB) { r = sxt(c->fa, c->fw) <= sxt(c->fb, c->fw); break; } if (c->fk == FK_LOGIC) { r = sxt(c->fr, c->fw) <= 0; break; } r = flag_zf(c) | (flag_sf(c) ^ flag_of(c)); break;
  }
  return r ^ (cc & 1); }
struct ins { int rex, op66, f3, f2, seg; int mod, reg, rm; u64 ea; };
static u64 next8(struct cpu *c) { u64 v = *(u8 *)c->rip; c->rip++; return v; }
static i64 immv(struct cpu *c, int w) { i64 v = sxt(ldm(c->rip, w), w); c->rip += w; return v; }
static void modrm(struct cpu *c, struct ins *i, int immbytes) {
  int m = next8(c); i->mod = m >> 6; i->reg = ((m >> 3) & 7) | ((i->rex & 4) << 1); i->rm = m & 7;
  if (i->mod == 3) { i->rm |= (i->rex & 1) << 3; return; }
  u64 a; int norip = 1;
  if (i->rm == 4) { int s = next8(c); int b = (s & 7) | ((i->rex & 1) << 3), x = ((s >> 3) & 7) | ((i->rex & 2) << 2), sc = s >> 6; a = 0; if ((s & 7) == 5 && i->mod == 0) a = (u64)immv(c, 4); else a = c->r[b]; if (x != 4) a += c->r[x] << sc; }
  else if (i->rm == 5 && i->mod == 0) { i64 d = immv(c, 4); a = c->rip + immbytes + d; norip = 0; }
  else a = c->r[i->rm | ((i->rex & 1) << 3)];
  if (norip) { if (i->mod == 1) a += (u64)immv(c, 1); else if (i->mod == 2) a += (u64)immv(c, 4); }
  i->ea = a; }
static u64 getr(struct cpu *c, struct ins *i, int n, int w) { if (w == 1 && !i->rex && n >= 4 && n < 8) return (u8)(c->r[n - 4] >> 8); return tr(c->r[n], w); }
static void setr(struct cpu *c, struct ins *i, int n, int w, u64 v) {
  switch (w) { case 8: c->r[n] = v; break; case 4: c->r[n] = (u32)v; break; case 2: c->r[n] = (c->r[n] & ~0xffffull) | (u16)v; break;
  default: if (!i->rex && n >= 4 && n < 8) c->r[n - 4] = (c->r[n - 4] & ~0xff00ull) | ((u64)(u8)v << 8); else c->r[n] = (c->r[n] & ~0xffull) | (u8)v; } }
static u64 getrm(struct cpu *c, struct ins *i, int w) { return i->mod == 3 ? getr(c, i, i->rm, w) : ldm(i->ea, w); }
static void setrm(struct cpu *c, struct ins *i, int w, u64 v) { if (i->mod == 3) setr(c, i, i->rm, w, v); else stm(i->ea, w, v); }
static u64 alu(struct cpu *c, int op, int w, u64 a, u64 b) {
  u64 r; 
  switch (op) {
  case 0: r = tr(a + b, w); setf(c, FK_ADD, w, a, b, r); return r;
  case 1: r = a | b; setf(c, FK_LOGIC, w, a, b, r); return r;
  case 2: { u64 cf = flag_cf(c); r = tr(a + b + cf, w); int nc = (r < a) | ((r == a) & (int)cf); setf(c, FK_ADC, w, a, b, r); c->fcf = nc; return r; }
  case 3: { u64 cf = flag_cf(c); r = tr(a - b - cf, w); int nc = (a < b) | ((a == b) & (int)cf); setf(c, FK_SBB, w, a, b, r); c->fcf = nc; return r; }
  case 4: r = a & b; setf(c, FK_LOGIC, w, a, b, r); return r;
  case 5: case 7: r = tr(a - b, w); setf(c, FK_SUB, w, a, b, r); return r;
  default: r = a ^ b; setf(c, FK_LOGIC, w, a, b, r); return r; } }
static u64 shiftop(struct cpu *c, int op, int w, u64 a, u64 cnt) {
  cnt &= w == 8 ? 63 : 31; u64 r; int bits = w * 8; int sym = symx_is_symbolic(cnt);
  if (!sym && cnt == 0) return a;
  switch (op) {
  case 4: case 6: r = w == 8 ? a << cnt : w == 4 ? (u32)((u32)a << cnt) : tr(a << cnt, w); break;
  case 5: r = w == 4 ? (u64)((u32)a >> cnt) : a >> cnt; break;
  case 7: r = w == 4 ? (u64)(u32)((i32)a >> cnt) : tr((u64)(sxt(a, w) >> cnt), w); break;
  case 0: { if (sym) bad("symbolic rotate"); cnt %= bits; r = cnt ? tr((a << cnt) | (a >> (bits - cnt)), w) : a; break; }
  case 1: { if (sym) bad("symbolic rotate"); cnt %= bits; r = cnt ? tr((a >> cnt) | (a << (bits - cnt)), w) : a; break; }
  default: bad("rcl/rcr"); return 0; }
  if (op >= 4) setf(c, sym ? FK_UNDEF : FK_SHIFT, w, a, cnt, r);
  return r; }
static void push(struct cpu *c, u64 v) { c->r[RSP] -= 8; stm(c->r[RSP], 8, v); }
static u64 pop(struct cpu *c) { u64 v = ldm(c->r[RSP], 8); c->r[RSP] += 8; return v; }
static void muldiv(struct cpu *c, struct ins *i, int op, int w, u64 v) {
  if (op == 4 || op == 5) { // mul/imul
    u64 a = tr(c->r[RAX], w);
    if (w == 8) { // high half by 32-bit pieces
      u64 lo = a * v; u64 al = (u32)a, ah = a >> 32, bl = (u32)v, bh = v >> 32; u64 t = ah * bl + ((al * bl) >> 32); u64 t2 = al * bh + (u32)t; u64 hi = ah * bh + (t >> 32) + (t2 >> 32);
      if (op == 5) { hi -= (i64)a < 0 ? v : 0; hi -= (i64)v < 0 ? a : 0; }
      c->r[RAX] = lo; c->r[RDX] = hi; }
    else { u64 p = op == 4 ? a * v : (u64)(sxt(a, w) * sxt(v, w)); if (w == 1) setr(c, i, RAX, 2, p); else { setr(c, i, RAX, w, p); setr(c, i, RDX, w, p >> (w * 8)); } }
    c->fk = FK_UNDEF; return; }
  c->fk = FK_UNDEF;
  if (v == 0) bad("divide error (#DE): zero divisor");
  if (w == 1) { u64 a = (u16)c->r[RAX]; u64 q, r; if (op == 6) { q = a / v; r = a % v; if (q > 255) bad("divide error (#DE)"); } else { i32 x = (i16)a, y = (i8)v; i32 qq = x / y; if (qq < -128 || qq > 127) bad("divide error (#DE)"); q = (u8)qq; r = (u8)(x % y); } c->r[RAX] = (c->r[RAX] & ~0xffffull) | (u8)q | (u64)(u8)r << 8; return; }
  u64 lo = tr(c->r[RAX], w), hi = tr(c->r[RDX], w);
  if (op == 6) {
    if (hi == 0) { u64 q, r; if (w == 4) { q = (u32)lo / (u32)v; r = (u32)lo % (u32)v; } else { q = lo / v; r = lo % v; } setr(c, i, RAX, w, q); setr(c, i, RDX, w, r); return; }
    if (w == 8) bad("128-bit division"); u64 n = hi << (w * 8) | lo; u64 q = n / v, r = n % v; if (q >> (w * 8)) bad("divide error (#DE): overflow"); setr(c, i, RAX, w, q); setr(c, i, RDX, w, r); return; }
  if (hi == tr((u64)(sxt(lo, w) < 0 ? -1 : 0), w)) {
    if (w == 4) { i32 x = lo, y = v; if ((x == (i32)0x80000000) & (y == -1)) bad("divide error (#DE): overflow"); setr(c, i, RAX, 4, (u32)(x / y)); setr(c, i, RDX, 4, (u32)(x % y)); }
    else if (w == 8) { i64 x = lo, y = v; if ((x == (i64)0x8000000000000000ull) & (y == -1)) bad("divide error (#DE): overflow"); setr(c, i, RAX, 8, x / y); setr(c, i, RDX, 8, x % y); }
    else { i32 x = sxt(lo, w), y = sxt(v, w); i32 q = x / y; if (q > 32767) bad("divide error (#DE): overflow"); setr(c, i, RAX, 2, q); setr(c, i, RDX, 2, x % y); }
    return; }
  if (w == 8) bad("signed 128-bit division"); i64 n = (i64)(hi << (w * 8) | lo); if (w == 2) n = (i32)n; i64 q = n / sxt(v, w), r = n % sxt(v, w); if (q != sxt(q, w)) bad("divide error (#DE): overflow"); setr(c, i, RAX, w, q); setr(c, i, RDX, w, r); }
static void al16(u64 a) { if (a & 15) bad("misaligned 16-byte access (#GP)"); }
static u64 xlo(struct cpu *c, struct ins *i, int w) { return i->mod == 3 ? tr(c->xl[i->rm], w) : ldm(i->ea, w); }
static void x128(struct cpu *c, struct ins *i, u64 *l, u64 *h, int al) { if (i->mod == 3) { *l = c->xl[i->rm]; *h = c->xh[i->rm]; } else { if (al) al16(i->ea); *l = ldm(i->ea, 8); *h = ldm(i->ea + 8, 8); } }
static void setx(struct cpu *c, int n, int w, u64 v) { if (w == 4) c->xl[n] = (c->xl[n] & ~0xffffffffull) | (u32)v; else c->xl[n] = v; }
static u64 f2i(double d, int w) { if (w == 8) { int ok = (d >= -9223372036854775808.0) & (d < 9223372036854775808.0); i64 t = (i64)d; return ok ? (u64)t : 0x8000000000000000ull; } int ok = (d > -2147483649.0) & (d < 2147483648.0); i64 t = (i64)d; return ok ? (u32)t : 0x80000000u; }
static u64 f2if(float d, int w) { if (w == 8) { int ok = (d >= -9223372036854775808.0f) & (d < 9223372036854775808.0f); i64 t = (i64)d; return ok ? (u64)t : 0x8000000000000000ull; } int ok = (d >= -2147483648.0f) & (d < 2147483648.0f); i64 t = (i64)d; return ok ? (u32)t : 0x80000000u; }
static u64 arith(int op, int w, u64 a, u64 b) {
  if (w == 4) { float x = asf(a), y = asf(b), r; switch (op) { case 0x58: r = x + y; break; case 0x59: r = x * y; break; case 0x5c: r = x - y; break; case 0x5e: r = x / y; break; case 0x5d: return x < y ? a : b; case 0x5f: return x > y ? a : b; default: bad("sse op"); return 0; } return fas(r); }
  double x = asd(a), y = asd(b), r; switch (op) { case 0x58: r = x + y; break; case 0x59: r = x * y; break; case 0x5c: r = x - y; break; case 0x5e: r = x / y; break; case 0x5d: return x < y ? a : b; case 0x5f: return x > y ? a : b; default: bad("sse op"); return 0; } return das(r); }
static char *hexof(u64 v) { char *s = malloc(20); int n = 0; for (int k = 60; k >= 0; k -= 4) { int d = (v >> k) & 15; s[n++] = d < 10 ? '0' + d : 'a' + d - 10; } s[n] = 0; return s; }
static void unimp(const char *what, u64 op) { char *m = malloc(80); char *h = hexof(op); int n = 0; while (what[n]) m[n] = what[n], n++; int k = 0; while (h[k]) m[n++] = h[k++]; m[n] = 0; symx_fail(m); }
static void op0f(struct cpu *c, struct ins *i) {
  int op = next8(c); int w = (i->rex & 8) ? 8 : i->op66 ? 2 : 4;
  if (op >= 0x80 && op <= 0x8f) { i64 d = immv(c, 4); if (cond(c, op & 15)) c->rip += d; return; }
  if (op >= 0x40 && op <= 0x4f) { modrm(c, i, 0); u64 v = getrm(c, i, w), o = getr(c, i, i->reg, w); int k = cond(c, op & 15); setr(c, i, i->reg, w, k ? v : o); return; }
  if (op >= 0x90 && op <= 0x9f) { modrm(c, i, 0); setrm(c, i, 1, cond(c, op & 15)); return; }
  if (op >= 0xc8 && op <= 0xcf) { int n = (op & 7) | ((i->rex & 1) << 3); u64 v = c->r[n]; if (w == 8) c->r[n] = __builtin_bswap64(v); else c->r[n] = __builtin_bswap32((u32)v); return; }
  int fw = i->f3 ? 4 : i->f2 ? 8 : 0; // scalar width
  switch (op) {
  case 0x0b: bad("ud2 executed"); return;
  case 0x1e: case 0x1f: case 0x18: modrm(c, i, 0); return;
  case 0xb6: modrm(c, i, 0); setr(c, i, i->reg, w, getrm(c, i, 1)); return;
  case 0xb7: modrm(c, i, 0); setr(c, i, i->reg, w, getrm(c, i, 2)); return;
  case 0xbe: modrm(c, i, 0); setr(c, i, i->reg, w, (u64)sxt(getrm(c, i, 1), 1)); return;
  case 0xbf: modrm(c, i, 0); setr(c, i, i->reg, w, (u64)sxt(getrm(c, i, 2), 2)); return;
  case 0xaf: { modrm(c, i, 0); u64 a = getr(c, i, i->reg, w), b = getrm(c, i, w); setr(c, i, i->reg, w, w == 4 ? (u32)((u32)a * (u32)b) : a * b); c->fk = FK_UNDEF; return; }
  case 0xba: { modrm(c, i, 1); int n = next8(c) & (w * 8 - 1); u64 v = getrm(c, i, w); int cf = (v >> n) & 1; switch (i->reg & 7) { case 4: break; case 5: setrm(c, i, w, v | 1ull << n); break; case 6: setrm(c, i, w, v & ~(1ull << n)); break; case 7: setrm(c, i, w, v ^ (1ull << n)); break; default: unimp("0fba /", i->reg); } c->fk = FK_BT; c->fcf = cf; return; }
  case 0xa3: case 0xab: case 0xb3: case 0xbb: { modrm(c, i, 0); if (i->mod != 3) bad("bt mem"); u64 n = getr(c, i, i->reg, w) & (w * 8 - 1); u64 v = getrm(c, i, w); int cf = (v >> n) & 1; if (op == 0xab) setrm(c, i, w, v | 1ull << n); if (op == 0xb3) setrm(c, i, w, v & ~(1ull << n)); if (op == 0xbb) setrm(c, i, w, v ^ (1ull << n)); c->fk = FK_BT; c->fcf = cf; return; }
  case 0xa4: case 0xac: { modrm(c, i, 1); u64 b = getr(c, i, i->reg, w), a = getrm(c, i, w); int n = next8(c) & (w == 8 ? 63 : 31), bits = w * 8; if (n) setrm(c, i, w, tr(op == 0xa4 ? a << n | b >> (bits - n) : a >> n | b << (bits - n), w)); c->fk = FK_UNDEF; return; }
  case 0x10: case 0x11: modrm(c, i, 0);
    if (fw) { if (op == 0x10) { if (i->mod == 3) setx(c, i->reg, fw, c->xl[i->rm]); else { c->xl[i->reg] = ldm(i->ea, fw); c->xh[i->reg] = 0; } } else { if (i->mod == 3) setx(c, i->rm, fw, c->xl[i->reg]); else stm(i->ea, fw, tr(c->xl[i->reg], fw)); } return; }
    goto mov128;
  case 0x28: case 0x29: modrm(c, i, 0); goto mov128;
  case 0x6f: case 0x7f: modrm(c, i, 0); if (!i->op66 && !i->f3) bad("mmx");
  mov128: { int al = op == 0x28 || op == 0x29 || ((op == 0x6f || op == 0x7f) && i->op66); int st = op == 0x11 || op == 0x29 || op == 0x7f;
      if (!st) { u64 l, h; x128(c, i, &l, &h, al); c->xl[i->reg] = l; c->xh[i->reg] = h; } else if (i->mod == 3) { c->xl[i->rm] = c->xl[i->reg]; c->xh[i->rm] = c->xh[i->reg]; } else { if (al) al16(i->ea); stm(i->ea, 8, c->xl[i->reg]); stm(i->ea + 8, 8, c->xh[i->reg]); } return; }
  case 0x12: modrm(c, i, 0); if (fw) bad("0f12"); c->xl[i->reg] = i->mod == 3 ? c->xh[i->rm] : ldm(i->ea, 8); return;
  case 0x13: modrm(c, i, 0); stm(i->ea, 8, c->xl[i->reg]); return;
  case 0x16: modrm(c, i, 0); if (fw) bad("0f16"); c->xh[i->reg] = i->mod == 3 ? c->xl[i->rm] : ldm(i->ea, 8); return;
  case 0x17: modrm(c, i, 0); stm(i->ea, 8, c->xh[i->reg]); return;
  case 0x14: case 0x62: case 0x6c: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); u64 a = c->xl[i->reg]; if (op == 0x6c || (op == 0x14 && i->op66)) { c->xh[i->reg] = l; } else { c->xl[i->reg] = (u64)(u32)a | (u64)(u32)l << 32; c->xh[i->reg] = (a >> 32) | (l >> 32) << 32; } return; }
  case 0x6d: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] = c->xh[i->reg]; c->xh[i->reg] = h; return; }
  case 0x15: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); if (!i->op66) bad("unpckhps"); c->xl[i->reg] = c->xh[i->reg]; c->xh[i->reg] = h; return; }
  case 0x2a: { modrm(c, i, 0); i64 v = sxt(getrm(c, i, w == 2 ? 4 : w), w == 2 ? 4 : w); if (fw == 4) setx(c, i->reg, 4, fas((float)v)); else if (fw == 8) setx(c, i->reg, 8, das((double)v)); else bad("cvtpi2ps"); return; }
  case 0x2c: case 0x2d: { modrm(c, i, 0); if (op == 0x2d) unimp("cvtsd2si", op); u64 v = xlo(c, i, fw); setr(c, i, i->reg, w, fw == 4 ? f2if(asf(v), w) : f2i(asd(v), w)); return; }
  case 0x2e: case 0x2f: { modrm(c, i, 0); int k = i->op66 ? 8 : 4; setf(c, FK_UCOMI, k, tr(c->xl[i->reg], k), xlo(c, i, k), 0); return; }
  case 0x54: case 0xdb: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] &= l; c->xh[i->reg] &= h; return; }
  case 0x55: case 0xdf: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] = ~c->xl[i->reg] & l; c->xh[i->reg] = ~c->xh[i->reg] & h; return; }
  case 0x56: case 0xeb: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] |= l; c->xh[i->reg] |= h; return; }
  case 0x57: case 0xef: { modrm(c, i, 0); if (i->mod == 3 && i->rm == i->reg) { c->xl[i->reg] = c->xh[i->reg] = 0; return; } u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] ^= l; c->xh[i->reg] ^= h; return; }
  case 0xfe: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); u64 a = c->xl[i->reg], b = c->xh[i->reg]; c->xl[i->reg] = (u32)((u32)a + (u32)l) | (u64)((u32)(a >> 32) + (u32)(l >> 32)) << 32; c->xh[i->reg] = (u32)((u32)b + (u32)h) | (u64)((u32)(b >> 32) + (u32)(h >> 32)) << 32; return; }
  case 0xd4: { modrm(c, i, 0); u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] += l; c->xh[i->reg] += h; return; }
  case 0x58: case 0x59: case 0x5c: case 0x5d: case 0x5e: case 0x5f: { modrm(c, i, 0);
      if (fw) { u64 v = xlo(c, i, fw); setx(c, i->reg, fw, arith(op, fw, tr(c->xl[i->reg], fw), v)); return; }
      u64 l, h; x128(c, i, &l, &h, 1); if (i->op66) { c->xl[i->reg] = arith(op, 8, c->xl[i->reg], l); c->xh[i->reg] = arith(op, 8, c->xh[i->reg], h); } else { u64 a = c->xl[i->reg], b = c->xh[i->reg]; c->xl[i->reg] = arith(op, 4, (u32)a, (u32)l) | arith(op, 4, a >> 32, l >> 32) << 32; c->xh[i->reg] = arith(op, 4, (u32)b, (u32)h) | arith(op, 4, b >> 32, h >> 32) << 32; } return; }
  case 0x5a: { modrm(c, i, 0); if (i->f3) { setx(c, i->reg, 8, das((double)asf(xlo(c, i, 4)))); } else if (i->f2) { setx(c, i->reg, 4, fas((float)asd(xlo(c, i, 8)))); } else if (i->op66) { u64 l, h; x128(c, i, &l, &h, 1); c->xl[i->reg] = fas((float)asd(l)) | fas((float)asd(h)) << 32; c->xh[i->reg] = 0; } else { u64 l = xlo(c, i, 8); c->xl[i->reg] = das((double)asf((u32)l)); c->xh[i->reg] = das((double)asf(l >> 32)); } return; }
  case 0x6e: modrm(c, i, 0); c->xl[i->reg] = getrm(c, i, w == 8 ? 8 : 4); c->xh[i->reg] = 0; return;
  case 0x7e: modrm(c, i, 0); if (i->f3) { c->xl[i->reg] = xlo(c, i, 8); c->xh[i->reg] = 0; return; } setrm(c, i, w == 8 ? 8 : 4, c->xl[i->reg]); return;
  case 0xd6: modrm(c, i, 0); if (i->mod == 3) { c->xl[i->rm] = c->xl[i->reg]; c->xh[i->rm] = 0; } else stm(i->ea, 8, c->xl[i->reg]); return;
  case 0x70: { modrm(c, i, 1); u64 l, h; x128(c, i, &l, &h, 1); int k = next8(c); if (!i->op66) bad("pshufw"); u32 e[4] = {l, l >> 32, h, h >> 32}; c->xl[i->reg] = e[k & 3] | (u64)e[(k >> 2) & 3] << 32; c->xh[i->reg] = e[(k >> 4) & 3] | (u64)e[(k >> 6) & 3] << 32; return; }
  case 0xc6: { modrm(c, i, 1); u64 l, h; x128(c, i, &l, &h, 1); int k = next8(c); u64 a = c->xl[i->reg], b = c->xh[i->reg]; if (i->op66) { c->xl[i->reg] = (k & 1) ? b : a; c->xh[i->reg] = (k & 2) ? h : l; } else { u32 e[4] = {a, a >> 32, b, b >> 32}, g[4] = {l, l >> 32, h, h >> 32}; c->xl[i->reg] = e[k & 3] | (u64)e[(k >> 2) & 3] << 32; c->xh[i->reg] = g[(k >> 4) & 3] | (u64)g[(k >> 6) & 3] << 32; } return; }
  case 0x73: { modrm(c, i, 1); int n = next8(c); u64 l = c->xl[i->rm], h = c->xh[i->rm]; switch (i->reg & 7) { case 3: { u64 nl, nh; if (n > 15) nl = nh = 0; else if (n >= 8) { nl = n == 8 ? h : h >> ((n - 8) * 8); nh = 0; } else if (n) { nl = l >> (n * 8) | h << (64 - n * 8); nh = h >> (n * 8); } else { nl = l; nh = h; } c->xl[i->rm] = nl; c->xh[i->rm] = nh; return; } case 2: c->xl[i->rm] = n > 63 ? 0 : l >> n; c->xh[i->rm] = n > 63 ? 0 : h >> n; return; case 6: c->xl[i->rm] = n > 63 ? 0 : l << n; c->xh[i->rm] = n > 63 ? 0 : h << n; return; default: unimp("0f73", i->reg); } return; }
  default: unimp("opcode 0f ", op);
  } }
static void hostcall(struct cpu *c, int n);
static void step(struct cpu *c) {
  struct ins in = {0}; struct ins *i = &in; int op; 
  for (;;) { op = next8(c); if (op == 0x66) i->op66 = 1; else if (op == 0xf3) i->f3 = 1; else if (op == 0xf2) i->f2 = 1; else if (op == 0x2e || op == 0x3e) ; else break; }
  if ((op & 0xf0) == 0x40) { i->rex = op | 0x100; op = next8(c); i->rex = (i->rex & 15) | 0x100; }
  int w = (i->rex & 8) ? 8 : i->op66 ? 2 : 4; int iw = w == 8 ? 4 : w;
  if (op == 0x0f) { op0f(c, i); return; }
  if (op < 0x40 && (op & 7) < 6) { int k = op >> 3, ww = (op & 1) ? w : 1; u64 a, b, r;
    switch (op & 7) {
    case 0: case 1: modrm(c, i, 0); a = getrm(c, i, ww); b = getr(c, i, i->reg, ww); r = alu(c, k, ww, a, b); if (k != 7) setrm(c, i, ww, r); return;
    case 2: case 3: modrm(c, i, 0); a = getr(c, i, i->reg, ww); b = getrm(c, i, ww); r = alu(c, k, ww, a, b); if (k != 7) setr(c, i, i->reg, ww, r); return;
    default: b = tr((u64)immv(c, (op & 1) ? iw : 1), ww); a = tr(c->r[RAX], ww); r = alu(c, k, ww, a, b); if (k != 7) setr(c, i, RAX, ww, r); return; } }
  if (op >= 0x50 && op <= 0x57) { push(c, c->r[(op & 7) | ((i->rex & 1) << 3)]); return; }
  if (op >= 0x58 && op <= 0x5f) { u64 v = pop(c); c->r[(op & 7) | ((i->rex & 1) << 3)] = v; return; }
  if (op >= 0x70 && op <= 0x7f) { i64 d = immv(c, 1); if (cond(c, op & 15)) c->rip += d; return; }
  if (op >= 0xb0 && op <= 0xb7) { u64 v = next8(c); setr(c, i, (op & 7) | ((i->rex & 1) << 3), 1, v); return; }
  if (op >= 0xb8 && op <= 0xbf) { u64 v = ldm(c->rip, w); c->rip += w; setr(c, i, (op & 7) | ((i->rex & 1) << 3), w, v); return; }
  if (op >= 0x91 && op <= 0x97) { int n = (op & 7) | ((i->rex & 1) << 3); u64 a = tr(c->r[RAX], w), b = tr(c->r[n], w); setr(c, i, RAX, w, b); setr(c, i, n, w, a); return; }
  switch (op) {
  case 0x63: modrm(c, i, 0); setr(c, i, i->reg, w, (u64)sxt(getrm(c, i, 4), 4)); return;
  case 0x68: push(c, (u64)immv(c, 4)); return;
  case 0x6a: push(c, (u64)immv(c, 1)); return;
  case 0x69: case 0x6b: { int n = op == 0x6b ? 1 : iw; modrm(c, i, n); u64 a = getrm(c, i, w); u64 b = (u64)immv(c, n); setr(c, i, i->reg, w, w == 4 ? (u32)((u32)a * (u32)b) : a * b); c->fk = FK_UNDEF; return; }
  case 0x80: case 0x81: case 0x83: { int ww = op == 0x80 ? 1 : w, n = op == 0x81 ? iw : 1; modrm(c, i, n); u64 b = tr((u64)immv(c, n), ww), a = getrm(c, i, ww); int k = i->reg & 7; u64 r = alu(c, k, ww, a, b); if (k != 7) setrm(c, i, ww, r); return; }
  case 0x84: case 0x85: { int ww = op == 0x84 ? 1 : w; modrm(c, i, 0); u64 a = getrm(c, i, ww), b = getr(c, i, i->reg, ww); setf(c, FK_LOGIC, ww, a, b, a & b); return; }
  case 0x86: case 0x87: { int ww = op == 0x86 ? 1 : w; modrm(c, i, 0); u64 a = getrm(c, i, ww), b = getr(c, i, i->reg, ww); setrm(c, i, ww, b); setr(c, i, i->reg, ww, a); return; }
  case 0x88: case 0x89: { int ww = op == 0x88 ? 1 : w; modrm(c, i, 0); setrm(c, i, ww, getr(c, i, i->reg, ww)); return; }
  case 0x8a: case 0x8b: { int ww = op == 0x8a ? 1 : w; modrm(c, i, 0); setr(c, i, i->reg, ww, getrm(c, i, ww)); return; }
  case 0x8d: modrm(c, i, 0); if (i->mod == 3) bad("lea reg"); setr(c, i, i->reg, w, i->ea); return;
  case 0x8f: { modrm(c, i, 0); u64 v = pop(c); setrm(c, i, 8, v); return; }
  case 0x90: return;
  case 0x98: if (w == 8) c->r[RAX] = (u64)(i64)(i32)c->r[RAX]; else if (w == 4) c->r[RAX] = (u32)(i32)(i16)c->r[RAX]; else setr(c, i, RAX, 2, (u64)(i16)(i8)c->r[RAX]); return;
  case 0x99: { i64 s = sxt(tr(c->r[RAX], w), w) < 0 ? -1 : 0; setr(c, i, RDX, w, (u64)s); return; }
  case 0xa4: case 0xa5: case 0xaa: case 0xab: { int ww = (op & 1) ? w : 1; u64 n = 1; if (i->f3 || i->f2) n = symx_concretize(c->r[RCX]); for (u64 k = 0; k < n; k++) { u64 v = op < 0xa8 ? ldm(c->r[RSI], ww) : tr(c->r[RAX], ww); stm(c->r[RDI], ww, v); c->r[RDI] += ww; if (op < 0xa8) c->r[RSI] += ww; } if (i->f3 || i->f2) c->r[RCX] = 0; return; }
  case 0xa8: case 0xa9: { int ww = op == 0xa8 ? 1 : w; u64 b = tr((u64)immv(c, op == 0xa8 ? 1 : iw), ww), a = tr(c->r[RAX], ww); setf(c, FK_LOGIC, ww, a, b, a & b); return; }
  case 0xc0: case 0xc1: { int ww = op == 0xc0 ? 1 : w; modrm(c, i, 1); u64 n = next8(c); u64 r = shiftop(c, i->reg & 7, ww, getrm(c, i, ww), n); setrm(c, i, ww, r); return; }
  case 0xd0: case 0xd1: { int ww = op == 0xd0 ? 1 : w; modrm(c, i, 0); u64 r = shiftop(c, i->reg & 7, ww, getrm(c, i, ww), 1); setrm(c, i, ww, r); return; }
  case 0xd2: case 0xd3: { int ww = op == 0xd2 ? 1 : w; modrm(c, i, 0); u64 r = shiftop(c, i->reg & 7, ww, getrm(c, i, ww), (u8)c->r[RCX]); setrm(c, i, ww, r); return; }
  case 0xc2: { u64 n = (u16)immv(c, 2); c->rip = pop(c); c->r[RSP] += n; return; }
  case 0xc3: c->rip = symx_concretize(pop(c)); return;
  case 0xc6: { modrm(c, i, 1); u64 v = next8(c); setrm(c, i, 1, v); return; }
  case 0xc7: { modrm(c, i, iw); u64 v = tr((u64)immv(c, iw), w); setrm(c, i, w, v); return; }
  case 0xc9: c->r[RSP] = c->r[RBP]; c->r[RBP] = pop(c); return;
  case 0xcc: bad("int3 executed"); return;
  case 0xe8: { i64 d = immv(c, 4); push(c, c->rip); c->rip += d; return; }
  case 0xe9: { i64 d = immv(c, 4); c->rip += d; return; }
  case 0xeb: { i64 d = immv(c, 1); c->rip += d; return; }
  case 0xf6: case 0xf7: { int ww = op == 0xf6 ? 1 : w, wi = op == 0xf6 ? 1 : iw; int sub = (*(u8 *)c->rip >> 3) & 7; modrm(c, i, sub < 2 ? wi : 0); u64 v = getrm(c, i, ww);
      switch (sub) { case 0: case 1: { u64 b = tr((u64)immv(c, wi), ww); setf(c, FK_LOGIC, ww, v, b, v & b); return; } case 2: setrm(c, i, ww, tr(~v, ww)); return;
      case 3: { u64 r = tr(0 - v, ww); setf(c, FK_SUB, ww, 0, v, r); setrm(c, i, ww, r); return; } default: muldiv(c, i, sub, ww, v); return; } }
  case 0xfe: case 0xff: { int ww = op == 0xfe ? 1 : w; int sub = (*(u8 *)c->rip >> 3) & 7; modrm(c, i, 0);
      if (sub < 2) { int cf = c->fk == FK_NONE || c->fk == FK_UNDEF || c->fk == FK_SHIFT ? 0 : flag_cf(c); u64 a = getrm(c, i, ww); u64 r = tr(sub ? a - 1 : a + 1, ww); setf(c, sub ? FK_SBB : FK_ADC, ww, a, 1, r); c->fcf = cf; setrm(c, i, ww, r); return; }
      u64 t = i->mod == 3 ? c->r[i->rm] : ldm(i->ea, 8); if (sub == 6) { push(c, t); return; } t = symx_concretize(t);
      if (sub == 2) { push(c, c->rip); c->rip = t; return; } if (sub == 4) { c->rip = t; return; } if (sub == 6) { push(c, t); return; } unimp("ff /", sub); return; }
  case 0xf4: bad("hlt"); return;
  default: unimp("opcode ", op);
  } }
#define STACKSZ 16384
static struct cpu g_cpu;
static int emu_loop(void *p) {
  struct cpu *c = p; c->steps = 0;
  while (c->rip != RETMAGIC) {
    if ((c->rip & ~0xffffull) == HOSTMAGIC) { hostcall(c, c->rip & 0xffff); continue; }
    if (++c->steps > 200000) bad("step limit exceeded (non-termination?)");
    step(c); }
  return 0; }
static void hostcall(struct cpu *c, int n) {
  u64 ret = pop(c); u64 a = c->r[RDI], b = c->r[RSI], d = c->r[RDX];
  switch (n >> 4) {
  case 0: { d = symx_concretize(d); for (u64 k = 0; k < d; k++) *(u8 *)(a + k) = *(u8 *)(b + k); c->r[RAX] = a; break; } // memcpy
  case 1: { d = symx_concretize(d); for (u64 k = 0; k < d; k++) *(u8 *)(a + k) = (u8)b; c->r[RAX] = a; break; } // memset
  case 2: bad("guest called abort"); break;
  case 3: { u64 k = 0; while (*(u8 *)(a + k)) k++; c->r[RAX] = k; break; } // strlen
  case 4: { if (a < b) for (u64 k = 0; k < d; k++) *(u8 *)(a + k) = *(u8 *)(b + k); else for (u64 k = d; k-- > 0;) *(u8 *)(a + k) = *(u8 *)(b + k); c->r[RAX] = a; break; }
  default: bad("call to an unresolved symbol"); }
  c->rip = ret; }
static const char *const hostnames[] = {"memcpy", "memset", "abort", "strlen", "memmove", 0};
uint64_t host_symbol(const char *n) { for (int k = 0; hostnames[k]; k++) if (!strcmp(n, hostnames[k])) return HOSTMAGIC + k * 16; return 0; }
void hx_call(struct call *q) {
  struct cpu *c = &g_cpu; memset(c, 0, sizeof *c);
  u8 *stk = malloc(STACKSZ); memset(stk, 0xa5, STACKSZ); if (q->symstack) { u8 pat[8]; symx_make_symbolic(pat, 8, "stack"); for (int k = 0; k < STACKSZ; k += 8) memcpy(stk + k, pat, 8); } u64 top = ((u64)stk + STACKSZ - 1024) & ~15ull;
  u64 sp = top - 8 * ((q->nstk + 1) & ~1); for (int k = 0; k < q->nstk; k++) stm(sp + 8 * k, 8, q->stk[k]);
  if (q->shadow) sp -= 32;
  sp -= 8; stm(sp, 8, RETMAGIC);
  static const u8 cs[] = {RBX, RBP, R12, R13, R14, R15}; 
  for (int k = 0; k < 16; k++) { c->r[k] = q->r[k]; c->xl[k] = q->xl[k]; c->xh[k] = q->xh[k]; }
  for (int k = 0; k < 6; k++) c->r[cs[k]] = 0x5a5a000011110000ull + cs[k];
  if (q->shadow) { c->r[RSI] = 0x5a5a000011110000ull + RSI; c->r[RDI] = 0x5a5a000011110000ull + RDI; for (int k = 6; k < 16; k++) { c->xl[k] = 0x7777000000000000ull + k; c->xh[k] = 0x7777000000000000ull + k; } }
  c->r[RSP] = sp; c->rip = q->fn; c->fk = FK_NONE;
  q->crash = symx_try(emu_loop, c); fault_msg = q->crash ? symx_last_error() : "";
  q->bad_preserve = 0; q->bad_xmm = 0;
  for (int k = 0; k < 6; k++) q->bad_preserve |= (c->r[cs[k]] != 0x5a5a000011110000ull + cs[k]) << cs[k];
  if (q->shadow) { q->bad_preserve |= (c->r[RSI] != 0x5a5a000011110000ull + RSI) << RSI; q->bad_preserve |= (c->r[RDI] != 0x5a5a000011110000ull + RDI) << RDI; for (int k = 6; k < 16; k++) q->bad_xmm |= ((c->xl[k] != 0x7777000000000000ull + k) | (c->xh[k] != 0x7777000000000000ull + k)) << k; }
  q->bad_preserve |= (c->r[RSP] != sp + 8) << RSP;
  for (int k = 0; k < 16; k++) { q->r[k] = c->r[k]; q->xl[k] = c->xl[k]; q->xh[k] = c->xh[k]; }
  free(stk); }
