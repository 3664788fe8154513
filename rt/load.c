// Static loader for the relocatable objects the compiler (or gcc/clang) emits.
#include "emu.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;
void *malloc(size_t); void *calloc(size_t, size_t); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); int strcmp(const char *, const char *); char *strdup(const char *);
uint64_t host_symbol(const char *n);
static const char *err = ""; const char *ld_error(void) { return err; }
static int fail(const char *m) { err = m; return 1; }
#define IMBASE 0x20000000ull
#define IMSIZE 0x1000000ull
static u64 rd(const u8 *p, int n) { u64 v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
static u64 rc(const u8 *p, int n) { return symx_concretize(rd(p, n)); } // layout decisions: one path per value
void ld_init(struct image *im) { memset(im, 0, sizeof *im); im->base = IMBASE; im->next = im->base; im->end = im->base + IMSIZE; }
static u64 place(struct image *im, u64 size, u64 align) { if (align < 1) align = 1; im->next = (im->next + align - 1) / align * align; u64 a = im->next; im->next += size; if (im->next > im->end) { fail("image too large"); return 0; } if ((u64)symx_map_fixed(a, size ? size : 1) != a) { fail("map"); return 0; } im->next += 64; return a; }
static struct sym *lookup(struct image *im, const char *n) { for (int i = 0; i < im->nsyms; i++) if (!strcmp(im->syms[i].name, n)) return &im->syms[i]; return 0; }
static struct sym *intern(struct image *im, const char *n) { struct sym *s = lookup(im, n); if (s) return s; if (im->nsyms == 3000) { fail("too many symbols"); return &im->syms[0]; } s = &im->syms[im->nsyms++]; s->name = strdup(n); s->addr = 0; s->def = 0; return s; }
uint64_t ld_sym(struct image *im, const char *n) { struct sym *s = lookup(im, n); return s && s->def ? s->addr : 0; }
struct pend { u64 at; struct sym *s; u64 addr; i64 add; int type; struct pend *next; };
static struct pend *pending;
static void want(u64 at, struct sym *s, u64 addr, i64 add, int type) { struct pend *p = malloc(sizeof *p); p->at = at; p->s = s; p->addr = addr; p->add = add; p->type = type; p->next = pending; pending = p; }
enum { P_ABS64, P_ABS32S, P_ABS32, P_PC32, P_PC64, P_COFFREL };
int ld_elf(struct image *im, const unsigned char *d, size_t n, int tag) {
  (void)tag; if (n < 64 || d[0] != 0x7f || d[1] != 'E' || d[2] != 'L' || d[3] != 'F') return fail("not an ELF file");
  if (rd(d + 16, 2) != 1 || rd(d + 18, 2) != 62) return fail("not an x86-64 relocatable object");
  u64 shoff = rc(d + 40, 8); int shnum = rd(d + 60, 2), shent = rd(d + 58, 2); if (shent != 64 || shoff + (u64)shnum * 64 > n || shnum > 64) return fail("bad section header table");
  static u64 sa[64]; const u8 *sh = d + shoff;
  for (int i = 0; i < shnum; i++) { sa[i] = 0; const u8 *s = sh + 64 * i; u32 type = rc(s + 4, 4); u64 flags = rc(s + 8, 8), off = rc(s + 24, 8), size = rc(s + 32, 8), align = rc(s + 48, 8); if (!(flags & 2) || (type != 1 && type != 8 && type != 14)) continue; if (type != 8 && off + size > n) return fail("section outside the file"); sa[i] = place(im, size, align); if (!sa[i]) return 1; if (type != 8 && size) memcpy((void *)sa[i], d + off, size); }
  for (int i = 0; i < shnum; i++) {
    const u8 *s = sh + 64 * i; if (rc(s + 4, 4) != 2) continue;
    u64 off = rc(s + 24, 8), size = rc(s + 32, 8); int link = rd(s + 40, 4); if (off + size > n || link >= shnum) return fail("bad symbol table"); u64 stroff = rd(sh + 64 * link + 24, 8), strsz = rd(sh + 64 * link + 32, 8); if (stroff + strsz > n) return fail("bad string table");
    int ns = size / 24; struct sym **tab = calloc(ns + 1, sizeof *tab); u64 *val = calloc(ns + 1, 8);
    for (int k = 1; k < ns; k++) { const u8 *e = d + off + 24 * k; u32 name = rc(e, 4); int info = e[4], shn = rd(e + 6, 2); u64 v = rc(e + 8, 8); if (name >= strsz) return fail("bad symbol name");
      if (shn && shn < 0xff00) { if (shn >= shnum) return fail("bad symbol section"); val[k] = sa[shn] + v; }
      if (shn == 0xfff1) val[k] = v;
      if (info >> 4) { struct sym *q = intern(im, (const char *)d + stroff + name); tab[k] = q;
        if (shn == 0xfff2) { if (!q->def) { u64 sz = rc(e + 16, 8); q->addr = place(im, sz, v); q->def = 3; } }
        else if (shn) { if (q->def == 1 && (info >> 4) == 1) return fail("duplicate symbol"); if (q->def != 1) { q->addr = val[k]; q->def = (info >> 4) == 2 ? 2 : 1; } } } }
    for (int j = 0; j < shnum; j++) { const u8 *r = sh + 64 * j; if (rd(r + 4, 4) != 4) continue; if ((int)rd(r + 40, 4) != i) continue; int tgt = rd(r + 44, 4); if (tgt >= shnum) return fail("bad relocation target"); if (!sa[tgt]) continue; u64 ro = rc(r + 24, 8), rs = rc(r + 32, 8), ts = rc(sh + 64 * tgt + 32, 8); if (ro + rs > n) return fail("relocations outside the file");
      for (u64 k = 0; k + 24 <= rs; k += 24) { const u8 *e = d + ro + k; u64 o = rc(e, 8), info = rc(e + 8, 8); i64 add = rd(e + 16, 8); u32 sy = info >> 32, ty = (u32)info; if (sy >= (u32)ns) return fail("bad relocation symbol"); int pt = ty == 1 ? P_ABS64 : ty == 11 ? P_ABS32S : ty == 10 ? P_ABS32 : (ty == 2 || ty == 4) ? P_PC32 : ty == 24 ? P_PC64 : -1; if (pt < 0) return fail("unknown relocation type"); if (o + (pt == P_ABS64 || pt == P_PC64 ? 8 : 4) > ts) return fail("relocation outside its section"); want(sa[tgt] + o, tab[sy], val[sy], add, pt); } }
  }
  return 0; }
// A static executable: the entry point, or 0
u64 ld_exec(struct image *im, const unsigned char *d, size_t n) {
  if (n < 64 || d[0] != 0x7f || d[1] != 'E' || d[2] != 'L' || d[3] != 'F' || d[4] != 2 || d[5] != 1 || d[6] != 1) { fail("not an ELF file"); return 0; }
  if (rd(d + 16, 2) != 2 || rd(d + 18, 2) != 62) { fail("not an x86-64 executable"); return 0; }
  u64 entry = rc(d + 24, 8), ph = rc(d + 32, 8); int pn = rd(d + 56, 2), ok = 0; if (rd(d + 54, 2) != 56 || pn > 64 || ph + 56ull * pn > n) { fail("bad program header table"); return 0; }
  for (int i = 0; i < pn; i++) { const u8 *e = d + ph + 56 * i; if (rc(e, 4) != 1) continue; u64 fl = rd(e + 4, 4), off = rc(e + 8, 8), va = rc(e + 16, 8), fs = rc(e + 32, 8), ms = rc(e + 40, 8), al = rc(e + 48, 8);
    if (off + fs > n) { fail("segment outside the file"); return 0; } if (fs > ms) { fail("segment larger in the file than in memory"); return 0; } if (al < 0x1000 || (al & (al - 1)) || off % al != va % al) { fail("bad segment alignment"); return 0; } if (va < 0x10000) { fail("segment below the lowest mappable address"); return 0; }
    if (ms) { if ((u64)symx_map_fixed(va, ms) != va) { fail("overlapping segments"); return 0; } memcpy((void *)va, d + off, fs); if (ms > fs) memset((void *)(va + fs), 0, ms - fs); } if ((fl & 1) && entry >= va && entry < va + fs) ok = 1; }
  if (!ok) { fail("entry point outside the executable segments"); return 0; } (void)im; return entry; }
// Is this a well-formed relocatable file? NULL or the reason why not.
const char *ld_wellformed(const unsigned char *d, size_t n) {
  static const u8 id[16] = {0x7f, 'E', 'L', 'F', 2, 1, 1}; if (n < 64) return "shorter than the header"; for (int i = 0; i < 16; i++) if (d[i] != id[i]) return "bad identification"; if (rd(d + 16, 2) != 1 || rd(d + 18, 2) != 62 || rd(d + 20, 4) != 1 || rd(d + 24, 8) || rd(d + 48, 4) || rd(d + 52, 2) != 64) return "bad header field";
  u64 so = rc(d + 40, 8), sn = rd(d + 60, 2), ss = rd(d + 62, 2); if (rd(d + 32, 8) && rd(d + 56, 2)) return "program headers in a relocatable file"; if (rd(d + 58, 2) != 64 || so < 64 || so + 64 * sn > n || !sn || sn > 64) return "bad section header table"; const u8 *sh = d + so; for (int k = 0; k < 64; k++) if (sh[k]) return "section 0 is not null"; if (ss >= sn || rd(sh + 64 * ss + 4, 4) != 3) return "bad section name table";
  static u64 off[64], sz[64]; static u32 ty[64]; for (u64 i = 1; i < sn; i++) { const u8 *s = sh + 64 * i; ty[i] = rc(s + 4, 4); off[i] = rc(s + 24, 8); sz[i] = rc(s + 32, 8); u64 al = rc(s + 48, 8); if (al & (al - 1)) return "section alignment is not a power of two"; if (rd(s + 16, 8)) return "section of a relocatable file has an address"; if (ty[i] != 8 && (off[i] < 64 || off[i] + sz[i] > n)) return "section outside the file"; if (ty[i] != 8 && sz[i] && off[i] < so + 64 * sn && so < off[i] + sz[i]) return "section overlaps the section headers";
    if (ty[i] == 3 && (!sz[i] || d[off[i]] || d[off[i] + sz[i] - 1])) return "string table does not begin and end with a null byte"; }
  for (u64 i = 1; i < sn; i++) for (u64 j = 1; j < i; j++) if (ty[i] != 8 && ty[j] != 8 && sz[i] && sz[j] && off[i] < off[j] + sz[j] && off[j] < off[i] + sz[i]) return "sections overlap in the file";
  int nsymtab = 0;
  for (u64 i = 1; i < sn; i++) { const u8 *s = sh + 64 * i; if (rd(s, 4) >= sz[ss]) return "bad section name"; u64 link = rd(s + 40, 4), info = rd(s + 44, 4), ent = rd(s + 56, 8);
    if (ty[i] == 2) { if (nsymtab++) return "two symbol tables"; if (ent != 24 || sz[i] % 24) return "bad symbol table entry size"; if (link >= sn || ty[link] != 3) return "symbol table without string table"; u64 ns = sz[i] / 24; if (!ns || info > ns) return "bad number of local symbols"; const u8 *t = d + off[i]; for (int k = 0; k < 24; k++) if (t[k]) return "symbol 0 is not null";
      for (u64 k = 1; k < ns; k++) { const u8 *e = t + 24 * k; u32 nm = rc(e, 4), inf = rc(e + 4, 1), b = inf >> 4, st = inf & 15, sx = rc(e + 6, 2); u64 v = rc(e + 8, 8); if (nm >= sz[link]) return "symbol name outside the string table"; if (b > 2 || (b == 0) != (k < info)) return "local and global symbols out of order"; if (st > 3) return "bad symbol type"; if (sx >= sn && sx < 0xff00) return "symbol in a missing section"; if (sx && sx < 0xff00 && v > sz[sx]) return "symbol outside its section"; if (!sx && b == 0 && st == 0) return "undefined local symbol";
        if (b) { if (!d[off[link] + nm]) return "global symbol without a name"; for (u64 q = info; q < k; q++) if (!strcmp((const char *)d + off[link] + nm, (const char *)d + off[link] + rc(t + 24 * q, 4))) return "two global symbols of one name"; } } }
    if (ty[i] == 4) { if (ent != 24 || sz[i] % 24) return "bad relocation entry size"; if (link >= sn || ty[link] != 2) return "relocations without symbol table"; if (info >= sn || !info || ty[info] != 1) return "relocations for no section"; u64 ns = sz[link] / 24; static u64 at[4096]; u64 nr = sz[i] / 24; if (nr > 4096) return 0;
      for (u64 k = 0; k < nr; k++) { const u8 *e = d + off[i] + 24 * k; u64 o = rc(e, 8), inf = rc(e + 8, 8), w; u32 rt = inf; switch (rt) { case 1: case 24: w = 8; break; case 2: case 4: case 10: case 11: w = 4; break; default: return "unknown relocation type"; } if (inf >> 32 >= ns || !(inf >> 32)) return "relocation against a missing symbol"; if (o + w > sz[info]) return "relocation outside its section"; at[k] = o; for (u64 q = 0; q < k; q++) if (at[q] < o + w && o < at[q] + 4) return "overlapping relocations"; } } }
  return nsymtab ? 0 : "no symbol table"; }
// What an object says about a global name: 0 absent, 1 undefined, 2 defined; local names: 3
int ld_binding(const unsigned char *d, size_t n, const char *name) { (void)n; u64 so = rc(d + 40, 8), sn = rd(d + 60, 2); const u8 *sh = d + so; int r = 0; for (u64 i = 1; i < sn; i++) { const u8 *s = sh + 64 * i; if (rd(s + 4, 4) != 2) continue; u64 off = rc(s + 24, 8), ns = rc(s + 32, 8) / 24, str = rc(sh + 64 * rd(s + 40, 4) + 24, 8); for (u64 k = 1; k < ns; k++) { const u8 *e = d + off + 24 * k; if (strcmp((const char *)d + str + rd(e, 4), name)) continue; if (!(e[4] >> 4)) { if (!r) r = 3; } else r = rd(e + 6, 2) ? 2 : 1; } } return r; }
int ld_coff(struct image *im, const unsigned char *d, size_t n, int tag) {
  (void)tag; if (n < 20 || rd(d, 2) != 0x8664) return fail("not an x86-64 COFF object");
  int nsec = rd(d + 2, 2); u64 symoff = rd(d + 8, 4), nsym = rd(d + 12, 4); int opt = rd(d + 16, 2); const u8 *sec = d + 20 + opt; static u64 sa[64]; if (nsec > 63 || symoff + nsym * 18 > n) return fail("bad COFF header"); const u8 *strs = d + symoff + nsym * 18;
  for (int i = 0; i < nsec; i++) { const u8 *s = sec + 40 * i; u64 size = rd(s + 16, 4), off = rd(s + 20, 4); u32 ch = rd(s + 36, 4); sa[i + 1] = 0; if (ch & 0xa00) continue; int al = (ch >> 20) & 15; if (!(ch & 0x80) && off + size > n) return fail("COFF section outside the file"); sa[i + 1] = place(im, size, al ? 1u << (al - 1) : 16); if (!(ch & 0x80) && size) memcpy((void *)sa[i + 1], d + off, size); }
  struct sym **tab = calloc(nsym + 1, sizeof *tab); u64 *val = calloc(nsym + 1, 8);
  for (u64 k = 0; k < nsym; k++) { const u8 *e = d + symoff + 18 * k; char nm[9]; const char *name; if (rd(e, 4)) { memcpy(nm, e, 8); nm[8] = 0; name = nm; } else name = (const char *)strs + rd(e + 4, 4); u64 v = rd(e + 8, 4); i32 sn = (int16_t)rd(e + 12, 2); int cl = e[16], aux = e[17]; if (sn > nsec) return fail("bad COFF symbol section"); if (sn > 0) val[k] = sa[sn] + v; if (sn == -1) val[k] = v;
    if (cl == 2) { struct sym *q = intern(im, name); tab[k] = q; if (sn > 0) { if (q->def == 1) return fail("duplicate symbol"); q->addr = val[k]; q->def = 1; } else if (sn == 0 && v) { if (!q->def) { q->addr = place(im, v, 16); q->def = 3; } } }
    k += aux; }
  for (int i = 0; i < nsec; i++) { const u8 *s = sec + 40 * i; if (!sa[i + 1]) continue; u64 ro = rd(s + 24, 4); int nr = rd(s + 32, 2); u64 ts = rd(s + 16, 4); if (ro + 10ull * nr > n) return fail("COFF relocations outside the file");
    for (int k = 0; k < nr; k++) { const u8 *e = d + ro + 10 * k; u64 o = rd(e, 4), sy = rd(e + 4, 4); int ty = rd(e + 8, 2); if (sy >= nsym) return fail("bad COFF relocation symbol"); int pt = ty == 1 ? P_ABS64 : ty == 2 ? P_ABS32 : (ty >= 4 && ty <= 9) ? P_PC32 : -1; if (pt < 0) return fail("unknown COFF relocation"); if (o + (pt == P_ABS64 ? 8 : 4) > ts) return fail("COFF relocation outside its section"); u64 at = sa[i + 1] + o; i64 add = pt == P_ABS64 ? (i64)rd((u8 *)at, 8) : (i64)(i32)rd((u8 *)at, 4); if (pt == P_PC32) add -= 4 + (ty - 4); want(at, tab[sy], val[sy], add, pt); } }
  return 0; }
static void wr(u64 a, u64 v, int n) { for (int i = 0; i < n; i++) ((u8 *)a)[i] = v >> (8 * i); }
int ld_link(struct image *im) {
  for (struct pend *p = pending; p; p = p->next) {
    u64 S = p->addr; if (p->s) { if (!p->s->def) { u64 h = host_symbol(p->s->name); if (!h) { symx_note(p->s->name); return fail("undefined symbol"); } u64 st = place(im, 16, 16); if (!st) return 1; u8 *q = (u8 *)st; q[0] = 0xff; q[1] = 0x25; wr(st + 2, 0, 4); wr(st + 6, h, 8); p->s->addr = st; p->s->def = 4; } S = p->s->addr; }
    u64 v = S + p->add; switch (p->type) { case P_ABS64: wr(p->at, v, 8); break; case P_ABS32S: if ((i64)v != (i64)(i32)v) return fail("32-bit signed relocation overflow"); wr(p->at, v, 4); break; case P_ABS32: if (v >> 32) return fail("32-bit relocation overflow"); wr(p->at, v, 4); break; case P_PC32: { i64 r = v - p->at; if (r != (i64)(i32)r) return fail("pc-relative relocation overflow"); wr(p->at, r, 4); break; } case P_PC64: wr(p->at, v - p->at, 8); break; } }
  pending = 0; return 0; }
