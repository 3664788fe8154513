// For every case and every value of its symbolic characters: the text written by -S, read as the GNU assembler reads
// it, describes exactly the object written by -c: the same instructions with the same operands, the same data, the same
// references, the same symbols. In native replay the object that the GNU assembler makes of the text is compared too.
#include "lit.h"
void *memset(void *, int, size_t); void *memcpy(void *, const void *, size_t); char *strchr(const char *, int); char *strcat(char *, const char *); char *strcpy(char *, const char *); int strcmp(const char *, const char *); int strncmp(const char *, const char *, size_t); int sprintf(char *, const char *, ...); int remove(const char *);
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;
static const struct lcase *f; static const char *what; static int bad;
static void fail(const char *m) { char *b = malloc(strlen(f->name) + strlen(m) + strlen(what) + 8); sprintf(b, "%s: %s: %s", f->name, what, m); symx_check(0, b); bad = 1; }
static void need(int c, const char *m) { if (!symx_is_symbolic(c)) { if (!c) fail(m); return; } char *b = malloc(strlen(f->name) + strlen(m) + strlen(what) + 8); sprintf(b, "%s: %s: %s", f->name, what, m); symx_check(c, b); }
// ---- the object
enum { TEXT_MAX = 24 };
struct sec { const char *name; const u8 *d; u64 size; int type; u64 pos; u64 align; };
struct esym { const char *name; int sec, bind, type; u64 value; };
struct rel { int sec; u64 off; int type, sym; i64 add; int used; };
static struct sec S[TEXT_MAX]; static int nS; static struct esym Y[400]; static int nY; static struct rel R[1500]; static int nR;
static u64 rd(const u8 *p, int n) { u64 v = 0; for (int k = 0; k < n; k++) v |= (u64)p[k] << 8 * k; return v; }
static u64 rdc(const u8 *p, int n) { return symx_concretize(rd(p, n)); }
static void parse_coff(const u8 *d, size_t n);
static void parse_elf(const u8 *d, size_t n) {
  if (n >= 20 && rdc(d, 2) == 0x8664) { parse_coff(d, n); return; }
  nS = nY = nR = 0; if (n < 64 || rdc(d, 4) != 0x464c457f) { fail("not an ELF file"); return; }
  u64 sho = rdc(d + 40, 8); int num = rdc(d + 60, 2), str = rdc(d + 62, 2); if (num > TEXT_MAX) { fail("too many sections"); return; }
  const u8 *H = d + sho, *sn = d + rdc(H + str * 64 + 24, 8); nS = num;
  for (int k = 0; k < num; k++) { const u8 *h = H + k * 64; S[k].name = (const char *)sn + rdc(h, 4); S[k].type = rdc(h + 4, 4); S[k].d = d + rdc(h + 24, 8); S[k].size = rdc(h + 32, 8); S[k].align = rdc(h + 48, 8); S[k].pos = 0; }
  for (int k = 0; k < num; k++) if (S[k].type == 2) { const char *st = (const char *)S[rdc(H + k * 64 + 40, 4)].d; for (u64 q = 0; q < S[k].size && nY < 400; q += 24) { const u8 *p = S[k].d + q; struct esym *y = &Y[nY++]; y->name = st + rdc(p, 4); y->bind = rdc(p + 4, 1) >> 4; y->type = rdc(p + 4, 1) & 15; y->sec = rdc(p + 6, 2); y->value = rdc(p + 8, 8); } }
  for (int k = 0; k < num; k++) if (S[k].type == 4) { int t = rdc(H + k * 64 + 44, 4); if (strncmp(S[t].name, ".eh_frame", 9) == 0) continue; for (u64 q = 0; q < S[k].size && nR < 1500; q += 24) { const u8 *p = S[k].d + q; struct rel *r = &R[nR++]; r->sec = t; r->off = rdc(p, 8); r->type = rdc(p + 8, 4); r->sym = rdc(p + 12, 4); r->add = rd(p + 16, 8); r->used = 0; } }
}
// the object of -fabi=ms: COFF, brought into the same shape (addends are kept in the section data)
static void parse_coff(const u8 *d, size_t n) {
  nS = nY = nR = 0; int ns = rdc(d + 2, 2), ny = rdc(d + 12, 4); u64 so = rdc(d + 8, 4); if (ns + 1 > TEXT_MAX || ny > 398) { fail("too many sections"); return; } if (rdc(d + 16, 2)) { fail("an optional header"); return; }
  const u8 *st = d + so + ny * 18; if (so + ny * 18 + 4 > n || rdc(st, 4) < 4 || so + ny * 18 + rdc(st, 4) > n) { fail("wrong symbol table"); return; }
  memset(&S[0], 0, sizeof S[0]); S[0].name = ""; nS = ns + 1; memset(&Y[0], 0, sizeof Y[0]); Y[0].name = ""; nY = ny + 1;
  for (int k = 0; k < ny; k++) { const u8 *p = d + so + k * 18; struct esym *y = &Y[k + 1]; char *nm = malloc(9); memcpy(nm, p, 8); nm[8] = 0; y->name = nm; if (rdc(p, 4) == 0) { u64 o = rdc(p + 4, 4); if (o < 4 || o >= rdc(st, 4)) { fail("wrong symbol name"); return; } y->name = (const char *)st + o; } y->value = rdc(p + 8, 4); y->sec = rdc(p + 12, 2); int c = rdc(p + 16, 1); if ((c != 2 && c != 3) || rdc(p + 17, 1) || y->sec > ns) { fail("wrong symbol"); return; } y->bind = c == 2; y->type = 0; }
  for (int k = 0; k < ns; k++) { const u8 *p = d + 20 + k * 40; struct sec *s = &S[k + 1]; char *nm = malloc(9); memcpy(nm, p, 8); nm[8] = 0; s->name = nm; u64 o = rdc(p + 20, 4), ro = rdc(p + 24, 4), nr = rdc(p + 32, 2), ch = rdc(p + 36, 4); s->d = d + o; s->size = rdc(p + 16, 4); s->type = 1; s->pos = 0; int al = ch >> 20 & 15; s->align = al ? 1 << (al - 1) : 1; if (o + s->size > n || ro + nr * 10 > n || rdc(p + 12, 4)) { fail("wrong section header"); return; }
    for (u64 q = 0; q < nr; q++) { const u8 *p2 = d + ro + q * 10; struct rel *r = &R[nR++]; if (nR == 1500) { fail("too many relocations"); return; } int t = rdc(p2 + 8, 2); r->sec = k + 1; r->off = rdc(p2, 4); r->sym = rdc(p2 + 4, 4) + 1; r->used = 0; int w = t == 1 ? 8 : 4; r->type = t == 1 ? 1 : t == 2 ? 11 : t == 4 ? 2 : 0; if (!r->type || r->off + w > s->size) { fail("wrong relocation"); return; } r->add = w == 8 ? (i64)rd(s->d + r->off, 8) : (i64)(int32_t)rd(s->d + r->off, 4); if (t == 4) r->add -= 4; } }
}
// ---- instructions
enum { O_NONE, O_REG, O_XMM, O_IMM, O_MEM, O_REL, O_STAR };
struct opd { int k, reg, size; i64 v; const char *sym; int symlen; i64 add; u64 foff; int fw; };
struct ins { char op[12]; int size, n, len; struct opd o[3]; };
static const char *const R8N[] = {"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"}, *const R16N[] = {"ax", "cx", "dx", "bx", "sp", "bp", "si", "di"};
static const char *const CC[] = {"o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"};
static const char *const ALU[] = {"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"};
static int opx(struct ins *i, const char *op, int size) { strcpy(i->op, op); i->size = size; return 1; }
// decodes one instruction; operands in AT&T order; 0 when it is unknown
static int decode(const u8 *p, u64 left, struct ins *i) {
  static u8 b[16]; u64 n = left < 16 ? left : 16; memset(i, 0, sizeof *i); memset(b, 0, 16); u64 q = 0; int p66 = 0, pf2 = 0, pf3 = 0, rex = 0;
  #define B(k) ((k) < n ? (u8)symx_concretize(p[k]) : 0)
  for (;; q++) { u8 c = B(q); if (c == 0x66) p66 = 1; else if (c == 0xf2) pf2 = 1; else if (c == 0xf3) pf3 = 1; else break; }
  if ((B(q) & 0xf0) == 0x40) { rex = B(q); q++; } int W = rex >> 3 & 1, xr = (rex & 4) << 1, xx = (rex & 2) << 2, xb = (rex & 1) << 3; int os = W ? 8 : p66 ? 2 : 4; int op = B(q); q++; if (op == 0x0f) { op = 0xf00 | B(q); q++; }
  int mode = 0; // 1: modrm
  int c = op & 0xff;
  if (op < 0x40 && (op & 7) < 4) mode = 1; else if (op == 0x84 || op == 0x85 || (op >= 0x88 && op <= 0x8b) || op == 0x8d || op == 0x63 || op == 0x69 || op == 0x6b || op == 0x80 || op == 0x81 || op == 0x83 || op == 0xc6 || op == 0xc7 || op == 0xc0 || op == 0xc1 || (op >= 0xd0 && op <= 0xd3) || op == 0xf6 || op == 0xf7 || op == 0xff) mode = 1;
  else if (op >= 0xf00 && !(c >= 0x80 && c <= 0x8f) && c != 0x0b) mode = 1;
  struct opd rm = {0}, rg = {0}; int md = 0, ext = 0;
  if (mode) { int m = B(q); q++; md = m >> 6; ext = m >> 3 & 7; int r = m & 7; rg.k = O_REG; rg.reg = ext | xr; rg.size = os;
    if (md == 3) { rm.k = O_REG; rm.reg = r | xb; rm.size = os; }
    else { rm.k = O_MEM; rm.reg = r | xb; if (r == 4) { int s = B(q); q++; if ((s >> 3 & 7) != 4 || xx) return 0; rm.reg = (s & 7) | xb; if ((s & 7) == 5 && md == 0) return 0; } else if (r == 5 && md == 0) { rm.reg = 16; rm.foff = q; rm.fw = 4; rm.v = (int32_t)rd(p + q, 4); q += 4; }
      if (md == 1) { rm.v = (int8_t)p[q]; q++; } if (md == 2) { rm.foff = q; rm.fw = 4; rm.v = (int32_t)rd(p + q, 4); q += 4; } } }
  #define IMM(w) do { struct opd *o_ = &i->o[0]; o_->k = O_IMM; o_->foff = q; o_->fw = (w); u64 v_ = rd(p + q, (w)); o_->v = (w) == 1 ? (int8_t)v_ : (w) == 2 ? (int16_t)v_ : (w) == 4 ? (int32_t)v_ : (i64)v_; q += (w); } while (0)
  #define TWO(a, b_) do { i->o[0] = a; i->o[1] = b_; i->n = 2; } while (0)
  #define XM(o) do { if ((o).k == O_REG) (o).k = O_XMM; } while (0)
  if (op < 0x40 && (op & 7) < 6) { int byte = !(op & 1); if (byte) os = 1; rg.size = os; if (rm.k == O_REG) rm.size = os; opx(i, ALU[op >> 3], os); if ((op & 7) < 2) TWO(rg, rm); else if ((op & 7) < 4) TWO(rm, rg); else { IMM(byte ? 1 : os == 2 ? 2 : 4); i->o[1].k = O_REG; i->o[1].reg = 0; i->o[1].size = os; i->n = 2; } }
  else if (op == 0x80 || op == 0x81 || op == 0x83) { if (op == 0x80) os = 1; if (rm.k == O_REG) rm.size = os; opx(i, ALU[ext], os); IMM(op == 0x81 ? os == 2 ? 2 : 4 : 1); i->o[1] = rm; i->n = 2; }
  else if (op >= 0x50 && op <= 0x5f) { opx(i, op < 0x58 ? "push" : "pop", 8); i->o[0].k = O_REG; i->o[0].reg = (op & 7) | xb; i->o[0].size = 8; i->n = 1; }
  else if (op == 0x63) { opx(i, "movs4", os); if (rm.k == O_REG) rm.size = 4; TWO(rm, rg); }
  else if (op == 0x69 || op == 0x6b) { opx(i, "imul", os); IMM(op == 0x6b ? 1 : 4); i->o[1] = rm; i->o[2] = rg; i->n = 3; }
  else if (op == 0x84 || op == 0x85) { if (op == 0x84) os = 1; rg.size = os; if (rm.k == O_REG) rm.size = os; opx(i, "test", os); TWO(rg, rm); }
  else if (op >= 0x88 && op <= 0x8b) { if (!(op & 1)) os = 1; rg.size = os; if (rm.k == O_REG) rm.size = os; opx(i, "mov", os); if (op & 2) TWO(rm, rg); else TWO(rg, rm); }
  else if (op == 0x8d) { opx(i, "lea", os); if (rm.k != O_MEM) return 0; TWO(rm, rg); }
  else if (op == 0x99) opx(i, W ? "cqto" : "cltd", 0); else if (op == 0xc9) opx(i, "leave", 0); else if (op == 0xc3) opx(i, "ret", 0); else if (op == 0xf0b) opx(i, "ud2", 0); else if (op == 0x90 && !rex) opx(i, "nop", 0);
  else if (op >= 0xb8 && op <= 0xbf) { opx(i, "mov", os); IMM(W ? 8 : os); i->o[1].k = O_REG; i->o[1].reg = (op & 7) | xb; i->o[1].size = os; i->n = 2; }
  else if (op == 0xc6 || op == 0xc7) { if (ext) return 0; if (op == 0xc6) os = 1; if (rm.k == O_REG) rm.size = os; opx(i, "mov", os); IMM(os == 8 ? 4 : os); i->o[1] = rm; i->n = 2; }
  else if (op == 0xc1 || op == 0xd3 || op == 0xd1) { static const char *const sh[] = {"rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar"}; opx(i, sh[ext], os); if (op == 0xc1) IMM(1); else if (op == 0xd1) { i->o[0].k = O_IMM; i->o[0].v = 1; } else { i->o[0].k = O_REG; i->o[0].reg = 1; i->o[0].size = 1; } i->o[1] = rm; i->n = 2; }
  else if (op == 0xf6 || op == 0xf7) { static const char *const f7[] = {"test", "test", "not", "neg", "mul", "imul1", "div", "idiv"}; if (ext < 2) return 0; if (op == 0xf6) os = 1; if (rm.k == O_REG) rm.size = os; opx(i, f7[ext], os); i->o[0] = rm; i->n = 1; }
  else if (op == 0xff && (ext == 2 || ext == 4)) { opx(i, ext == 2 ? "call" : "jmp", 0); if (rm.k != O_REG) return 0; rm.k = O_STAR; rm.size = 8; i->o[0] = rm; i->n = 1; }
  else if (op == 0xe9 || op == 0xe8 || op == 0xeb || (op >= 0x70 && op <= 0x7f) || (op >= 0xf80 && op <= 0xf8f)) { int w = op == 0xeb || (op >= 0x70 && op <= 0x7f) ? 1 : 4; if (op == 0xe8) opx(i, "call", 0); else if (op == 0xe9 || op == 0xeb) opx(i, "jmp", 0); else { i->op[0] = 'j'; strcpy(i->op + 1, CC[op & 15]); } IMM(w); i->o[0].k = O_REL; i->n = 1; }
  else if (op >= 0xf90 && op <= 0xf9f) { strcpy(i->op, "set"); strcat(i->op, CC[op & 15]); i->size = 1; if (rm.k == O_REG) rm.size = 1; i->o[0] = rm; i->n = 1; }
  else if (op == 0xfaf) { opx(i, "imul", os); TWO(rm, rg); }
  else if (op == 0xfb6 || op == 0xfb7 || op == 0xfbe || op == 0xfbf) { int z = op < 0xfb8, s = op & 1 ? 2 : 1; if (rm.k == O_REG) rm.size = s; sprintf(i->op, "mov%c%d", z ? 'z' : 's', s); i->size = os; TWO(rm, rg); }
  else if (op == 0xfba && ext == 7) { opx(i, "btc", os); IMM(1); i->o[1] = rm; i->n = 2; }
  else if (op == 0xf10 || op == 0xf11) { XM(rm); XM(rg); if (pf2 == pf3) return 0; opx(i, pf2 ? "movsd" : "movss", 0); if (op == 0xf10) TWO(rm, rg); else TWO(rg, rm); }
  else if (op == 0xf6e || op == 0xf7e) { if (pf3) { XM(rm); XM(rg); opx(i, "movq", 8); TWO(rm, rg); } else { if (!p66) return 0; int s = W ? 8 : 4; opx(i, W ? "movq" : "movd", s); XM(rg); if (rm.k == O_REG) rm.size = s; if (op == 0xf6e) TWO(rm, rg); else TWO(rg, rm); } }
  else if (op == 0xfd6 && p66) { XM(rm); XM(rg); opx(i, "movq", 8); TWO(rg, rm); }
  else if (op == 0xf2a) { if (pf2 == pf3) return 0; int s = W ? 8 : 4; opx(i, pf2 ? "cvtsi2sd" : "cvtsi2ss", s); XM(rg); if (rm.k == O_REG) rm.size = s; TWO(rm, rg); }
  else if (op == 0xf2c) { if (pf2 == pf3) return 0; int s = W ? 8 : 4; opx(i, pf2 ? "cvttsd2si" : "cvttss2si", s); XM(rm); rg.size = s; TWO(rm, rg); }
  else if (op == 0xf2e) { XM(rm); XM(rg); opx(i, p66 ? "ucomisd" : "ucomiss", 0); TWO(rm, rg); }
  else if (op == 0xf57) { XM(rm); XM(rg); opx(i, p66 ? "xorpd" : "xorps", 0); TWO(rm, rg); }
  else if (op == 0xf58 || op == 0xf59 || op == 0xf5c || op == 0xf5e) { if (pf2 == pf3) return 0; XM(rm); XM(rg); const char *s = c == 0x58 ? "adds" : c == 0x59 ? "muls" : c == 0x5c ? "subs" : "divs"; strcpy(i->op, s); strcat(i->op, pf2 ? "d" : "s"); TWO(rm, rg); }
  else if (op == 0xf5a) { if (pf2 == pf3) return 0; XM(rm); XM(rg); opx(i, pf2 ? "cvtsd2ss" : "cvtss2sd", 0); TWO(rm, rg); }
  else return 0;
  for (int k = 0; k < i->n; k++) { if (i->o[k].k == O_XMM) i->o[k].size = 16; if (i->o[k].k == O_REG && i->o[k].size == 1 && !rex && i->o[k].reg >= 4 && op != 0xd3) return 0; /* ah .. bh */ }
  i->len = q; return q <= left && q <= 15; }
// ---- the text
static int sp(const char *t, int k, int n) { while (k < n && (t[k] == ' ' || t[k] == '\t')) k++; return k; }
static int idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '$'; }
// a number: decimal, or byte 2 and an index into hx_raw
static int num(const char *t, int k, int n, i64 *v) { int neg = 0; while (k < n && (t[k] == '-' || t[k] == '+')) { if (t[k] == '-') neg = !neg; k++; } u64 r = 0; if (k + 6 < n && t[k] == 2) { int id = 0; for (int b = 1; b < 7; b++) id = id * 10 + t[k + b] - '0'; r = hx_raw[id]; k += 7; } else { if (k >= n || t[k] < '0' || t[k] > '9') return -1; for (; k < n && t[k] >= '0' && t[k] <= '9'; k++) r = r * 10 + (t[k] - '0'); } *v = neg ? -r : r; return k; }
static int isnum(char c) { return (c >= '0' && c <= '9') || c == '-' || c == 2; }
static int reg(const char *s, int n, int *size) { // number of a register, -1
  char b[8]; if (n > 5 || n < 2) return -1; memcpy(b, s, n); b[n] = 0;
  if (!strncmp(b, "xmm", 3)) { *size = 16; return b[4] ? (b[3] - '0') * 10 + b[4] - '0' : b[3] - '0'; }
  for (int k = 0; k < 8; k++) { if (!strcmp(b, R8N[k])) { *size = 1; return k; } if (!strcmp(b, R16N[k])) { *size = 2; return k; } if ((b[0] == 'e' || b[0] == 'r') && !strcmp(b + 1, R16N[k])) { *size = b[0] == 'e' ? 4 : 8; return k; } }
  if (b[0] == 'r') { int v = 0, k = 1; for (; b[k] >= '0' && b[k] <= '9'; k++) v = v * 10 + b[k] - '0'; if (v < 8 || v > 15) return -1; *size = !b[k] ? 8 : b[k] == 'd' ? 4 : b[k] == 'w' ? 2 : b[k] == 'b' ? 1 : 0; return *size ? v : -1; } return -1; }
static int symref(const char *t, int k, int n, struct opd *o) { o->sym = t + k; while (k < n && idc(t[k])) k++; o->symlen = t + k - o->sym; if (!o->symlen) return -1; if (k < n && (t[k] == '+' || t[k] == '-')) { k = num(t, k, n, &o->add); } return k; }
static int operand(const char *t, int k, int n, struct opd *o) {
  memset(o, 0, sizeof *o); k = sp(t, k, n); if (k >= n) return -1; char c = t[k];
  if (c == '%' || c == '*') { if (c == '*') { k++; if (t[k] != '%') return -1; } int b = ++k; while (k < n && idc(t[k])) k++; o->reg = reg(t + b, k - b, &o->size); if (o->reg < 0) return -1; o->k = c == '*' ? O_STAR : o->size == 16 ? O_XMM : O_REG; return k; }
  if (c == '$') { o->k = O_IMM; k++; if (isnum(t[k])) return num(t, k, n, &o->v); return symref(t, k, n, o); }
  if (isnum(c)) { k = num(t, k, n, &o->v); if (k < 0) return -1; }
  else if (c != '(') { o->k = O_REL; return symref(t, k, n, o); }
  if (k >= n || t[k] != '(' || t[k + 1] != '%') return -1; int b = k + 2; k = b; while (k < n && idc(t[k])) k++; int s; o->reg = reg(t + b, k - b, &s); if (o->reg < 0 || s != 8 || t[k] != ')') return -1; o->k = O_MEM; return k + 1; }
// mnemonic and operands to the form decode() gives
static int canon(const char *m, struct ins *i) {
  int rs = 0; for (int k = 0; k < i->n; k++) if (i->o[k].k == O_REG) rs = i->o[k].size; int xm = 0; for (int k = 0; k < i->n; k++) if (i->o[k].k == O_XMM) xm = 1;
  static const char *const plain[] = {"cltd", "cqto", "leave", "ret", "ud2", "movsd", "movss", "ucomisd", "ucomiss", "xorps", "adds?", "cvtsd2ss", "cvtss2sd", "addss", "addsd", "subss", "subsd", "mulss", "mulsd", "divss", "divsd", "jmp", "call", 0};
  for (int k = 0; plain[k]; k++) if (!strcmp(m, plain[k])) return opx(i, m, 0);
  if (!strcmp(m, "callq")) return opx(i, "call", 0);
  if (!strcmp(m, "movd") || (!strcmp(m, "movq") && xm)) { int s = !strcmp(m, "movq") || rs == 8 ? 8 : 4; return opx(i, s == 8 ? "movq" : "movd", s); }
  if (!strcmp(m, "cvtsi2sd") || !strcmp(m, "cvtsi2ss") || !strcmp(m, "cvttsd2si") || !strcmp(m, "cvttss2si")) return opx(i, m, rs ? rs : 4);
  static const char *const al[][2] = {{"nae", "b"}, {"c", "b"}, {"nb", "ae"}, {"nc", "ae"}, {"z", "e"}, {"nz", "ne"}, {"na", "be"}, {"nbe", "a"}, {"pe", "p"}, {"po", "np"}, {"nge", "l"}, {"nl", "ge"}, {"ng", "le"}, {"nle", "g"}, {0, 0}};
  int pf = m[0] == 'j' ? 1 : !strncmp(m, "set", 3) ? 3 : 0; if (pf) { const char *cc = m + pf; for (int k = 0; al[k][0]; k++) if (!strcmp(cc, al[k][0])) cc = al[k][1]; for (int k = 0; k < 16; k++) if (!strcmp(cc, CC[k])) { memcpy(i->op, m, pf); strcpy(i->op + pf, CC[k]); i->size = pf == 3; return 1; } return 0; }
  int l = strlen(m); char suf = m[l - 1]; int ss = suf == 'b' ? 1 : suf == 'w' ? 2 : suf == 'l' ? 4 : suf == 'q' ? 8 : 0;
  if (l == 6 && !strncmp(m, "mov", 3) && (m[3] == 's' || m[3] == 'z')) { int fs = m[4] == 'b' ? 1 : m[4] == 'w' ? 2 : m[4] == 'l' ? 4 : 0; if (!fs || !ss || (m[3] == 'z' && fs == 4)) return 0; sprintf(i->op, "mov%c%d", m[3], fs); i->size = ss; return 1; }
  if (!strcmp(m, "movabsq")) return opx(i, "mov", 8);
  char b[12]; strcpy(b, m); int sz = ss; static const char *const suff[] = {"add", "sub", "and", "or", "xor", "cmp", "test", "mov", "lea", "push", "pop", "not", "neg", "div", "idiv", "mul", "imul", "sal", "shl", "sar", "shr", "btc", 0};
  for (int pass = 0; pass < 2; pass++) { if (pass) { if (!ss) return 0; b[l - 1] = 0; } else { int hit = 0; for (int k = 0; suff[k]; k++) hit |= !strcmp(b, suff[k]); if (!hit) continue; sz = rs; if (!sz) return 0; }
    for (int k = 0; suff[k]; k++) if (!strcmp(b, suff[k])) { opx(i, !strcmp(b, "sal") ? "shl" : b, sz); if (!strcmp(b, "imul") && i->n == 1) strcpy(i->op, "imul1"); if (!strcmp(b, "imul") && i->n == 2 && i->o[0].k == O_IMM) { i->o[2] = i->o[1]; i->n = 3; } if ((i->op[0] == 's') && (!strcmp(i->op, "shl") || !strcmp(i->op, "shr") || !strcmp(i->op, "sar")) && i->n == 1) { i->o[1] = i->o[0]; memset(&i->o[0], 0, sizeof i->o[0]); i->o[0].k = O_IMM; i->o[0].v = 1; i->n = 2; } return 1; } }
  return 0; }
struct lab { const char *n; int len, sec, global, def; u64 pos; }; static struct lab L[800]; static int nL;
struct ref { const char *sym; int len; i64 add; int sec; u64 off, end; int w, pc; i64 raw; int line; }; static struct ref F[1500]; static int nF;
static struct lab *lab(const char *n, int len) { for (int k = 0; k < nL; k++) if (L[k].len == len && !strncmp(L[k].n, n, len)) return &L[k]; if (nL == 800) { fail("too many labels"); return &L[0]; } struct lab *l = &L[nL++]; memset(l, 0, sizeof *l); l->n = n; l->len = len; return l; }
static void ref(struct opd *o, int sec, u64 off, u64 end, int w, int pc, i64 raw) { if (nF == 1500) { fail("too many references"); return; } struct ref *r = &F[nF++]; r->sym = o->sym; r->len = o->symlen; r->add = o->add; r->sec = sec; r->off = off; r->end = end; r->w = w; r->pc = pc; r->raw = raw; }
static int section(const char *n, int len) { for (int k = 0; k < nS; k++) if (S[k].type != 4 && (int)strlen(S[k].name) == len && !strncmp(S[k].name, n, len)) return k; return -1; }
static char linebuf[200]; static const char *line(const char *t, int b, int e, const char *m) { int n = e - b; if (n > 90) n = 90; char *r = malloc(strlen(m) + n + 8); int o = sprintf(r, "%s", m); for (int k = 0; k < n; k++) { char c = t[b + k]; r[o++] = c == '\t' ? ' ' : symx_is_symbolic((u8)c) || (u8)c < 32 || (u8)c > 126 ? '?' : c; } r[o] = 0; return r; }
static i64 trunc_(i64 v, int s) { return s == 1 ? (int8_t)v : s == 2 ? (int16_t)v : s == 4 ? (int32_t)v : v; }
// reads the text against the object
static void compare(const char *t, int n) {
  nL = nF = 0; int cur = section(".text", 5); int k = 0;
  while (k < n && !bad) {
    int b = k, e = k; int q = 0; while (e < n && t[e] != '\n') { if (t[e] == '"') q = !q; if (t[e] == '\\' && q) e++; e++; } k = e + 1; int p = sp(t, b, e); if (p >= e || t[p] == '#') continue;
    int w = p; while (w < e && idc(t[w])) w++; char m[24]; if (w - p > 23 && !(w < e && t[w] == ':')) { fail(line(t, b, e, "cannot read: ")); return; }
    if (w < e && t[w] == ':') { struct lab *l = lab(t + p, w - p); if (l->def) { fail(line(t, b, e, "label defined twice: ")); return; } if (cur < 0) { fail(line(t, b, e, "label in a section the object lacks: ")); return; } l->def = 1; l->sec = cur; l->pos = S[cur].pos; continue; }
    memcpy(m, t + p, w - p); m[w - p] = 0; int a = sp(t, w, e);
    if (!strcmp(m, ".global") || !strcmp(m, ".globl")) { int z = e; while (z > a && t[z - 1] == ' ') z--; lab(t + a, z - a)->global = 1; continue; }
    if (!strcmp(m, ".section")) { int z = a; while (z < e && idc(t[z])) z++; cur = section(t + a, z - a); continue; }
    if (!strcmp(m, ".text") || !strcmp(m, ".data") || !strcmp(m, ".bss")) { cur = section(m, strlen(m)); continue; }
    if (m[0] == '.') {
      if (cur < 0) { i64 z = 1; if (!strcmp(m, ".zero") || !strcmp(m, ".align")) num(t, a, e, &z); if (!strcmp(m, ".align") || !z) continue; fail(line(t, b, e, "data in a section the object lacks: ")); return; }
      struct sec *s = &S[cur]; struct opd o; memset(&o, 0, sizeof o);
      if (!strcmp(m, ".string") || !strcmp(m, ".asciz") || !strcmp(m, ".ascii")) { if (a >= e || t[a] != '"') { fail(line(t, b, e, "cannot read: ")); return; } int x = a + 1; for (; x < e && t[x] != '"';) { u8 c = t[x++]; if (c == '\\') { c = t[x++]; if (c >= '0' && c <= '7') { int v = 0, d = 0; x--; for (; d < 3 && t[x] >= '0' && t[x] <= '7'; d++, x++) v = v * 8 + t[x] - '0'; c = v; } else { static const char es[] = "bfnrt\\\"", ev[] = "\b\f\n\r\t\\\""; const char *z = strchr(es, c); if (!z || !c) { fail(line(t, b, e, "unknown escape: ")); return; } c = ev[z - es]; } } if (s->pos >= s->size) { fail(line(t, b, e, "data missing in the object: ")); return; } need(s->d[s->pos++] == c, line(t, b, e, "wrong data: ")); } if (m[1] == 's' || m[5] == 'z') { if (s->pos >= s->size) { fail("data missing in the object"); return; } need(s->d[s->pos++] == 0, line(t, b, e, "wrong data: ")); } continue; }
      int wd = !strcmp(m, ".quad") ? 8 : !strcmp(m, ".long") ? 4 : !strcmp(m, ".byte") ? 1 : !strcmp(m, ".word") || !strcmp(m, ".short") ? 2 : 0;
      if (wd) { for (;;) { int z; memset(&o, 0, sizeof o); if (isnum(t[a])) z = num(t, a, e, &o.v); else z = symref(t, a, e, &o); if (z < 0) { fail(line(t, b, e, "cannot read: ")); return; } if (s->pos + wd > s->size) { fail(line(t, b, e, "data missing in the object: ")); return; }
          i64 got = rd(s->d + s->pos, wd); if (o.sym) ref(&o, cur, s->pos, s->pos + wd, wd, 0, got); else need(trunc_(got, wd) == trunc_(o.v, wd), line(t, b, e, "wrong data: ")); s->pos += wd; z = sp(t, z, e); if (z >= e || t[z] != ',') { if (z < e) { fail(line(t, b, e, "cannot read: ")); return; } break; } a = sp(t, z + 1, e); } continue; }
      i64 v; int z = num(t, a, e, &v); if (z < 0) { fail(line(t, b, e, "unknown directive: ")); return; } v = symx_concretize(v);
      if (!strcmp(m, ".zero") || !strcmp(m, ".skip")) { if (s->type == 8) { s->pos += v; if (s->pos > s->size) { fail(line(t, b, e, "data missing in the object: ")); return; } continue; } if (s->pos + v > s->size) { fail(line(t, b, e, "data missing in the object: ")); return; } int ok = 1; for (i64 x = 0; x < v; x++) ok &= s->d[s->pos + x] == 0; need(ok, line(t, b, e, "wrong data: ")); s->pos += v; continue; }
      if (!strcmp(m, ".align") || !strcmp(m, ".balign")) { need(s->align >= v, line(t, b, e, "section less aligned than: ")); int ok = 1; while (v && s->pos % v) { if (s->pos >= s->size) { if (s->pos == s->size) { s->pos = (s->pos + v - 1) / v * v; } break; } if (s->type != 8) ok &= s->d[s->pos] == 0; s->pos++; } need(ok, line(t, b, e, "wrong padding: ")); continue; }
      fail(line(t, b, e, "unknown directive: ")); return; }
    struct ins x, y; memset(&x, 0, sizeof x); while (a < e && t[a] != '#') { if (x.n == 3) { fail(line(t, b, e, "cannot read: ")); return; } a = operand(t, a, e, &x.o[x.n]); if (a < 0) { fail(line(t, b, e, "cannot read: ")); return; } x.n++; a = sp(t, a, e); if (a < e && t[a] == ',') a++; else if (a < e && t[a] != '#') { fail(line(t, b, e, "cannot read: ")); return; } }
    if (!canon(m, &x)) { fail(line(t, b, e, "the assembler does not know: ")); return; }
    if (cur < 0 || S[cur].pos >= S[cur].size) { fail(line(t, b, e, "missing in the object: ")); return; } struct sec *s = &S[cur];
    if (!decode(s->d + s->pos, s->size - s->pos, &y)) { fail(line(t, b, e, "the object holds no known instruction for: ")); return; }
    if (x.n > 1) for (int j = 0; j < x.n; j++) if (x.o[j].k == O_REG && x.size && x.o[j].size != x.size && strncmp(x.op, "mov", 3) && !(j == 0 && x.o[j].reg == 1 && x.op[0] == 's') && strncmp(x.op, "cvt", 3)) { fail(line(t, b, e, "operand size mismatch: ")); return; }
    if (strcmp(x.op, y.op) || x.size != y.size || x.n != y.n) { symx_note(y.op); fail(line(t, b, e, "another instruction in the object: ")); return; }
    for (int j = 0; j < x.n; j++) { struct opd *o = &x.o[j], *d = &y.o[j]; if (o->k != d->k) { fail(line(t, b, e, "another kind of operand in the object: ")); return; }
      if (o->k == O_REG || o->k == O_XMM || o->k == O_STAR) { if (o->reg != d->reg || o->size != d->size) { fail(line(t, b, e, "another register in the object: ")); return; } }
      else if (o->k == O_MEM) { if (o->reg != d->reg) { fail(line(t, b, e, "another register in the object: ")); return; } need(o->v == d->v, line(t, b, e, "another displacement in the object: ")); }
      else if (o->sym) ref(o, cur, s->pos + d->foff, s->pos + y.len, d->fw, o->k == O_REL, d->v);
      else { int z = x.size ? x.size : 8; if (!strcmp(x.op, "btc") || x.op[0] == 's' && x.op[1] == 'h' || !strcmp(x.op, "sar")) z = 1; need(trunc_(o->v, z) == trunc_(d->v, z), line(t, b, e, "another immediate in the object: ")); if (z == 8 && d->fw == 4) need(o->v == (int32_t)o->v, line(t, b, e, "immediate out of range: ")); } }
    s->pos += y.len; }
  if (bad) return;
  for (int j = 0; j < nF; j++) { struct ref *r = &F[j]; struct lab *l = lab(r->sym, r->len); char nm[120]; int ln = r->len > 60 ? 60 : r->len; char sy[64]; memcpy(sy, r->sym, ln); sy[ln] = 0; struct rel *z = 0; for (int q = 0; q < nR; q++) if (R[q].sec == r->sec && R[q].off == r->off) { z = &R[q]; z->used++; }
    sprintf(nm, "wrong reference to %s", sy); const char *mm = strcpy(malloc(120), nm);
    if (!z) { if (!(r->pc && l->def && l->sec == r->sec)) { fail(mm); return; } need(r->raw + (i64)r->end == (i64)l->pos + r->add, mm); continue; }
    int ok = r->pc ? (z->type == 2 || z->type == 4) : r->w == 8 ? z->type == 1 : r->w == 4 ? z->type == 10 || z->type == 11 : 0; if (!ok || z->sym >= nY) { fail(mm); return; } struct esym *y = &Y[z->sym]; i64 add = z->add; if (r->pc) add += r->end - r->off;
    if (y->type == 3 || (y->bind == 0 && y->sec)) { if (!l->def || y->sec != l->sec) { fail(mm); return; } need((i64)y->value + add == (i64)l->pos + r->add, mm); }
    else { if ((int)strlen(y->name) != r->len || strncmp(y->name, r->sym, r->len)) { fail(mm); return; } need(add == r->add, mm); } }
  for (int q = 0; q < nR; q++) if (R[q].used != 1) { fail("a relocation that the text does not ask for"); return; }
  for (int j = 0; j < nL; j++) { struct lab *l = &L[j]; char sy[64]; int ln = l->len > 60 ? 60 : l->len; memcpy(sy, l->n, ln); sy[ln] = 0; char *mm = malloc(120); sprintf(mm, "wrong symbol %s", sy); int found = 0;
    for (int q = 1; q < nY; q++) if ((int)strlen(Y[q].name) == l->len && !strncmp(Y[q].name, l->n, l->len) && Y[q].type != 3) { found++; struct esym *y = &Y[q]; if (l->def ? y->sec != l->sec || y->value != l->pos : y->sec != 0) { fail(mm); return; } if ((y->bind == 1) != (l->global || !l->def)) { fail(mm); return; } }
    if (found > 1 || (!found && l->global && l->def)) { fail(mm); return; } }
  for (int q = 1; q < nY; q++) if (Y[q].bind == 1) { int hit = 0; for (int j = 0; j < nL; j++) if ((int)strlen(Y[q].name) == L[j].len && !strncmp(Y[q].name, L[j].n, L[j].len)) hit = 1; if (!hit && Y[q].sec) { char *mm = malloc(200); sprintf(mm, "symbol %s is not in the text", Y[q].name); fail(mm); return; } }
  for (int q = 0; q < nS; q++) if ((S[q].type == 1 || S[q].type == 8) && S[q].name[0] == '.' && (!strcmp(S[q].name, ".text") || !strcmp(S[q].name, ".data") || !strcmp(S[q].name, ".rodata") || !strcmp(S[q].name, ".bss"))) if (S[q].pos != S[q].size) { u64 m = S[q].pos; int pad = 1; for (; m < S[q].size; m++) pad &= S[q].type == 8 || rdc(S[q].d + m, 1) == 0; if (!pad || S[q].size - S[q].pos >= 16) { fail("the object holds more than the text"); return; } } }
static u8 h[300];
static void *copy(const void *p, size_t n) { if (!p) return 0; char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
int hx_main(void) {
  int first = symx_arg(), count = symx_arg2(); if (first + count > l_ncases) count = l_ncases - first;
  uint16_t sel = 0; if (count > 1) { symx_make_symbolic(&sel, 2, "@sel"); symx_assume(sel < count); } sel = symx_concretize(sel);
  f = &l_cases[first + sel]; symx_note(f->name); char nm[16]; what = "the compiler";
  for (int k = 0; k < f->nholes; k++) { sprintf(nm, "@h%d", k); uint8_t v; symx_make_symbolic(&v, 1, nm); const char *s = f->sets[k]; int ok = 0, each = s[0] == '!' && strlen(s) % 2; s += each; if (s[0] == '0' && (s[1] == '1' || s[1] == '7') && !s[2]) v = '0' + (v & (s[1] - '0')); else if (s[0]) { for (; s[0]; s += 2) ok |= (v >= (uint8_t)s[0]) & (v <= (uint8_t)s[1]); symx_assume(ok); } if (each) v = symx_concretize(v); h[k] = v; }
  int n = strlen(f->src), hole = 0; char *src = malloc(n + 1); for (int k = 0; k < n; k++) src[k] = f->src[k] == 1 ? (char)h[hole++] : f->src[k]; src[n] = 0; hx_file("t.c", src, n);
  const char *a1[12] = {"t.c", "-c", "-o", "t.o"}, *a2[12] = {"t.c", "-S", "-o", "t.s"}; int na = 4; n = strlen(f->args); char *args = copy(f->args, n); for (int k = 0; k < n; k++) { a1[na] = a2[na] = args + k; na++; while (k < n && args[k] != '\n') k++; args[k] = 0; }
  hx_rawnum = 1; int r1 = cc_run(a1); hx_nraw = 0; if (r1) { size_t on; symx_note(hx_stdout(&on)); } symx_check(r1 == 0, "a valid program was rejected (-c)"); if (r1) return 0; size_t n1, n2; u8 *o = hx_output("t.o", &n1); if (!o) { fail("no object"); return 0; } o = copy(o, n1);
  int r2 = cc_run(a2); hx_rawnum = 0; symx_check(r2 == 0, "a valid program was rejected (-S)"); if (r2) return 0; char *t = (char *)hx_output("t.s", &n2); if (!t) { fail("no text"); return 0; } t = copy(t, n2);
  what = "the object"; parse_elf(o, n1); if (!bad) compare(t, n2);
  size_t n3; u8 *g = hx_as(t, n2, &n3); if (g && !bad) { what = "the GNU assembler"; if (n3 == 1) { fail("the text is rejected"); return 0; } parse_elf(g, n3); if (!bad) compare(t, n2); }
  symx_reach("compared"); return 0; }
